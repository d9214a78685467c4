"""Content split over streams (Interp.tla) and the end of inline image data (InlineData.tla)."""
import json
import interp, interp_check as ic, vlib
from pdfgen import simple_doc
from interp import op

PROJ = interp.PROJ_ALL + ['data']
REQ = ['Inline', 'Paint', 'ShowText', 'Save', 'Restore', 'Invoke', 'SetColor']


def split(prog, rng):
    return interp.split_tokens(prog, rng, rng.choice([2, 3, 5, 9]))


HEAD = b'BI /W 1 /H 1 /BPC 8 /CS /G ID '


def observe_inline(case):
    raw, pre = case
    content = [pre + HEAD + raw + b'3 w 0 0 m 7 5 l S']
    return interp.observe_page(simple_doc([(content, {}, {})]).build())


def inline(c, alphabet, n):
    r = c.tlc('InlineData', 'INIT Init\nNEXT Next\nINVARIANT Emitted\nINVARIANT NoInnerEnd\nCHECK_DEADLOCK FALSE\n',
              files={'conf.json': json.dumps({'bytes': list(alphabet), 'max': n})}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('InlineData', {k: v[1] for k, v in r.actions.items()}, ['Scan'])
    cases = []
    recs = []
    for i, x in enumerate(r.records):
        n = len(x['h'])
        # a block boundary of the reader, which starts a block at the data, falls somewhere near the end of the data
        fills = [0] * (i % 4 == 0) + [4096 - i % (n + 1)] + [4096 - c.rng.randint(0, n) for _ in range(c.n(1, 4))]
        for fill in fills:
            long = b'x' * (fill - 1) + b'\n' if fill else b''
            data = long[:-2] + bytes(x['after']) if fill else bytes(x['data'])
            # and one of the lexer near its start
            pre = b' ' * (4096 - len(HEAD) + c.rng.randint(-4, 30)) if i % 2 else b''
            recs.append((x, data))
            cases.append((long + bytes(x['h']), pre))
    obs = vlib.run_real(observe_inline, cases)
    for (x, data), k, o in zip(recs, cases, obs):
        its = o.get('items') or []
        if o.get('exc') != 'none' or [i['k'] for i in its] != ['image', 'line'] or its[1]['lw'] != 3000:
            c.violation('inline image', {'raw': repr(k[0][-40:]), 'length': len(k[0])}, str(o)[:2000], x)
        elif its[0]['data'] != list(data):
            c.violation('inline image data', {'raw': repr(k[0][-40:]), 'length': len(k[0])}, its[0]['data'][-40:], list(data)[-40:])
    c.traces += len(cases)
    c.notes['generated_behaviours_replayed'] = c.notes.get('generated_behaviours_replayed', 0) + len(cases)
    c.sample({'inline': repr(cases[len(cases) // 2][0])})


def run(c):
    inline(c, b'EI\nx', c.n(9, 11))
    inline(c, b'EI\r\n \x00x', c.n(6, 8))
    foc = [{'inline': 4, 'text': 3, 'q': 3}, {'text': 5, 'space': 3}, {'inline': 2, 'cm': 4, 'do': 3}]
    ic.run_random(c, c.n(1200, 10000), foc, PROJ, required=REQ, split=split)
    c.assumptions += ['inline data followed by a line end before EI; EI glued to data or preceded by a blank is not judged']
