"""Token sequences for the object assembler and observations of it."""
import io
import pdfgen
from pdfgen import PDF, Raw, Name

NAMES = ['A', 'B', 'C', 'Kids', 'Type', 'x1']
WS = [b' ', b' ', b'\n', b'\r\n', b'\t', b'  ', b' %c]\n']


def t_int(v):
    return {'k': 'int', 'v': v, 's': str(v), 'b': str(v).encode()}


def t_name(i):
    return {'k': 'name', 'v': i, 's': '/' + NAMES[i], 'b': b'/' + NAMES[i].encode()}


def t_leaf(kind, s, b):
    return {'k': kind, 'v': 0, 's': s, 'b': b}


OPEN = {'a': b'[', 'd': b'<<', 'p': b'{'}
CLOSE = {'a': b']', 'd': b'>>', 'p': b'}'}


def t_open(c):
    return {'k': 'open', 'v': 0, 's': c, 'b': OPEN[c]}


def t_close(c):
    return {'k': 'close', 'v': 0, 's': c, 'b': CLOSE[c]}


T_NULL = t_leaf('null', 'null', b'null')
T_R = t_leaf('R', 'R', b'R')


class Gen:
    def __init__(self, rng):
        self.r = rng

    def leaf(self):
        r = self.r
        k = r.randrange(8)
        if k < 2:
            return [t_int(r.choice([0, 1, 2, -3, 17, 65536]))]
        if k == 2:
            return [t_leaf('real', '2.5', b'2.5')]
        if k == 3:
            return [t_leaf('bool', 'true', b'true')] if r.random() < .5 else [t_leaf('bool', 'false', b'false')]
        if k == 4:
            x = r.choice([b'', b'a', b'a)b', b'(x)', b'1 0 R', b']>>'])
            return [t_leaf('str', 's' + x.hex(), pdfgen.str_bytes(x, r))]
        if k == 5:
            return [T_NULL]
        return [t_name(r.randrange(len(NAMES)))]

    def value(self, depth, nested=True):
        r = self.r
        if depth <= 0 or r.random() < .35:
            if nested and r.random() < .2:
                return [t_int(r.randrange(1, 30)), t_int(r.choice([0, 0, 1])), T_R]
            return self.leaf()
        k = r.random()
        n = r.randrange(5)
        if k < .45:
            body = [x for _ in range(n) for x in self.value(depth - 1)]
            return [t_open('a')] + body + [t_close('a')]
        if k < .55:
            body = [x for _ in range(n) for x in self.value(depth - 1)]
            return [t_open('p')] + body + [t_close('p')]
        body = []
        for _ in range(n):
            body += [t_name(r.randrange(len(NAMES)))] + self.value(depth - 1)
        return [t_open('d')] + body + [t_close('d')]

    def tokens(self, damage):
        r = self.r
        out = []
        for _ in range(r.randrange(1, 5)):
            out += self.value(r.choice([1, 2, 4, 7]), nested=False)
        for _ in range(damage):
            i = r.randrange(len(out) + 1)
            if r.random() < .5 and out:
                del out[min(i, len(out) - 1)]
            else:
                out.insert(i, r.choice([t_close('a'), t_close('d'), t_close('p'), t_open('a'), t_open('d'), t_int(5), t_name(0)]))
        return out


def render(toks, rng):
    """Bytes and token offsets."""
    out = b''
    pos = []
    prev = None
    for t in toks:
        reg = t['k'] in ('int', 'real', 'bool', 'null', 'R')
        if out and (rng is None or reg or rng.random() < .5):
            out += b' ' if rng is None else rng.choice(WS)
        pos.append(len(out))
        out += t['b']
        prev = t
    return out + b'\n', pos


def canon(o):
    from pdfmajor.parser.PSStackParser import PSLiteral, PSKeyword
    from pdfmajor.parser.PDFStream import PDFStream, PDFObjRef
    if o is None:
        return 'null'
    if isinstance(o, bool):
        return 'true' if o else 'false'
    if isinstance(o, (int, float)):
        return repr(o)
    if isinstance(o, (bytes, bytearray)):
        return 's' + bytes(o).hex()
    if isinstance(o, (list, tuple)):
        return '[' + ''.join(' ' + canon(x) for x in o) + ' ]'
    if isinstance(o, dict):
        ks = sorted(o, key=lambda k: NAMES.index(k) if k in NAMES else 99)
        return '<<' + ''.join(' /%s=%s' % (k, canon(o[k])) for k in ks) + ' >>'
    if isinstance(o, PDFObjRef):
        return 'ref%s' % o.objid
    if isinstance(o, PSLiteral):
        return '/' + (o.name if isinstance(o.name, str) else o.name.decode('latin-1'))
    if isinstance(o, PSKeyword):
        return 'kw:' + o.name.decode('latin-1')
    return type(o).__name__


def run_stream(data):
    from pdfmajor.parser.PDFParser import PDFStreamParser
    from pdfmajor.execptions import PSEOF, PSSyntaxError
    p = PDFStreamParser(data)
    ev, exc = [], 'none'
    try:
        while len(ev) < 500:
            try:
                pos, o = p.nextobject()
                ev.append({'p': pos, 's': canon(o)})
            except PSSyntaxError:
                ev.append({'p': -1, 's': 'error'})
    except PSEOF:
        pass
    except Exception as e:
        exc = type(e).__name__
    return {'ev': ev, 'exc': exc, 'pos': True, 'how': 'object stream parser'}


def run_file(data):
    """The object in a file, read through the document."""
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    pdf = PDF()
    tree = pdf.add({'Type': Name('Pages'), 'Kids': [], 'Count': 0})
    pdf.root = pdf.add({'Type': Name('Catalog'), 'Pages': tree})
    x = pdf.add(Raw(data))
    try:
        doc = PDFDocument(PDFParser(io.BytesIO(pdf.build())))
        return {'ev': [{'p': 0, 's': canon(doc.getobj(x.n))}], 'exc': 'none', 'pos': False, 'how': 'file object'}
    except Exception as e:
        return {'ev': [], 'exc': type(e).__name__, 'pos': False, 'how': 'file object'}


def observe(case):
    runs = [run_stream(case['data'])]
    if case['file']:
        runs.append(run_file(case['data']))
    return {'runs': runs}
