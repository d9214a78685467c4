"""Tokenizer against the lexical grammar (Lexer.tla)."""
import copy, json
import vlib, lex

INV = ['Ordered', 'InRange', 'Balanced', 'Progress']
REQ = ['SkipWhite', 'StartToken', 'ExtendToken', 'EndToken', 'CommentByte', 'StringByte', 'EscapeByte', 'OctalByte', 'AngleByte', 'HexByte']
KEY = 'odd-hex-digit'
ALPHABETS = [b'(\\)0\n\r1n', b'</>4 a<[', b'/#41 (]%', b'+-.10 /a', b'%\r\n a(1', b'true fals\x00'[:8]]


def tlc(c, cases, ideal, selftest=False):
    cfg = ('INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\nCONSTANT OddHexIdeal = %s\n' %
           ('TRUE' if ideal else 'FALSE') + ''.join('INVARIANT %s\n' % i for i in INV))
    run = vlib.run_tlc if selftest else c.tlc
    r = run('LexerTrace', cfg, files={'cases.json': json.dumps(cases)}, env={'CASES': 'cases.json'}, coverage=True)
    if not selftest:
        c.fired('LexerTrace', {k: v[1] for k, v in r.actions.items()})
    v = {x['id']: x['clause'] for x in r.records}
    if len(v) != len(cases):
        raise vlib.MachineryError('no verdict')
    return [v[i + 1] for i in range(len(cases))]


def validate(c, raw):
    obs = vlib.run_real(lex.observe, raw)
    recs = []
    for k, o in zip(raw, obs):
        if 'exc' in o:
            o = {'runs': [{'toks': [], 'exc': o['exc'], 'off': 0, 'from': 1, 'how': 'run'}]}
        recs.append(dict(o, data=list(k['data'])))
    unspec = 0
    for base in range(0, len(recs), 3000):
        part = recs[base:base + 3000]
        v = tlc(c, part, True)
        redo = [i for i, x in enumerate(v) if x not in ('', 'unspec')]
        unspec += sum(x == 'unspec' for x in v)
        if redo:
            w = tlc(c, [part[i] for i in redo], False)
            for i, x in zip(redo, w):
                if x == '' and c.finding(KEY, v[i]):
                    continue
                c.violation(v[i], raw[base + i]['data'], part[i])
    c.traces += len(recs)
    c.notes['outside_the_grammar'] = c.notes.get('outside_the_grammar', 0) + unspec
    return recs


def generated(c, alphabet, n):
    cfg = ('INIT GenInit\nNEXT GenNext\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\nCONSTANT OddHexIdeal = TRUE\n' +
           ''.join('INVARIANT %s\n' % i for i in INV))
    r = c.tlc('LexerGen', cfg, files={'conf.json': json.dumps({'bytes': list(alphabet), 'max': n})}, env={'CONF': 'conf.json'})
    raw = [{'data': bytes(x['h']), 'bufs': [None, 1, 2, 3], 'pads': [b' ' * (4096 - len(x['h']) // 2)], 'seeks': [i], 'lines': False}
           for i, x in enumerate(r.records)]
    obs = vlib.run_real(lex.observe, raw)
    bad = []
    for x, k, o in zip(r.records, raw, obs):
        for run in o.get('runs', [{'toks': None, 'exc': o.get('exc')}]):
            exp = [dict(t, p=t['p'] + run.get('off', 0)) for t in x['out'][run.get('from', 1) - 1:]]
            if run['exc'] != 'none' or run['toks'] != exp:
                bad.append(k)
                break
    c.traces += len(raw) - len(bad)
    c.notes['generated_behaviours_replayed'] = c.notes.get('generated_behaviours_replayed', 0) + len(raw)
    if bad:
        validate(c, bad[:4000])


def run(c):
    for a in ALPHABETS:
        generated(c, sorted(set(a)), c.n(5, 6))
    g = lex.Gen(c.rng)
    raw = []
    for i in range(c.n(1500, 15000)):
        d = g.stream() if i % 4 else g.soup()
        raw.append(lex.make_case(c.rng, d, lines=i % 5 == 0))
    for i in range(c.n(400, 4000)):
        raw.append(lex.make_case(c.rng, g.lines(), lines=True))
    for i in range(c.n(6, 30)):
        raw.append({'data': g.lines(1) + b'ab' * c.rng.randrange(2030, 2060) + g.lines(25), 'bufs': [None], 'pads': [], 'seeks': [], 'lines': True})
    recs = validate(c, raw)
    c.fired('LexerTrace', {}, REQ)
    c.sample({'input': repr(raw[1]['data']), 'tokens': recs[1]['runs'][0]['toks'][:4]})
    # the binding: a recorded trace with one changed leaf must be rejected
    mut = []
    for r in recs[:400]:
        toks = r['runs'][0]['toks']
        if r['runs'][0]['exc'] == 'none' and toks and len(mut) < 30:
            m = copy.deepcopy(r)
            k = c.rng.randrange(3)
            t = m['runs'][-1 if m['runs'][-1]['toks'] else 0]['toks']
            if k == 0:
                t.pop()
            elif k == 1:
                t[-1]['p'] += 1
            else:
                t[0]['k'] = 'x'
            mut.append(m)
    if any(x == '' for x in tlc(c, mut, True, True)):
        raise vlib.MachineryError('a corrupted trace was accepted')
    c.notes['corrupted_traces_rejected'] = len(mut)
    c.assumptions += ['inputs on which the grammar is silent (counted as outside_the_grammar) are not judged',
                      'reals have at most 4 fraction digits; integers stay below 2^31', 'line ends inside literal strings are kept as in the file']
