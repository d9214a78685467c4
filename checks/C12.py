"""Stream filters, predictors and chains (Filters.tla)."""
import copy, json
import vlib, filters

ACTS = ['HexDigit', 'HexSkip', 'HexEnd', 'A85Digit', 'A85Zero', 'A85Skip', 'A85End', 'RlLiteral', 'RlRepeat', 'RlEnd',
        'LzwClear', 'LzwCode', 'LzwEnd', 'NoPredictor', 'PngRow', 'PngEnd']


def cfg(kind, invs, case):
    return 'INIT %sInit\nNEXT %sNext\nCHECK_DEADLOCK FALSE\nCONSTANT Case <- %s\n' % (kind, kind, case) + ''.join('INVARIANT %s\n' % i for i in invs)


def st(f, **k):
    return dict({'f': f, 'pred': 0, 'colors': 1, 'cols': 1, 'bpc': 8, 'early': 1, 'plain': []}, **k)


def jobs(c):
    raw = [
        (st('hex'), b'4fB >\0', 0, c.n(5, 7), []),
        (st('a85'), b'!5uz~ ', 0, c.n(5, 7), []),
        (st('rl'), bytes([0, 1, 2, 128, 254, 255]), 0, c.n(4, 6), []),
    ]
    js = [{'kind': 'raw', 'stage': s, 'alphabet': list(a), 'min': lo, 'max': hi, 'head': h} for s, a, lo, hi, h in raw]
    js.append({'kind': 'lzw', 'stage': st('lzw'), 'alphabet': [65, 66, 256, 257, 258, 259, 260], 'min': 1, 'max': c.n(5, 6), 'head': [256]})
    js.append({'kind': 'lzw', 'stage': st('lzw', early=0), 'alphabet': [65, 256, 257, 258, 259], 'min': 1, 'max': 5, 'head': [256]})
    for cols, colors, bpc, n in [(2, 1, 8, 6), (3, 1, 4, 6)] + ([(1, 2, 8, 6), (1, 1, 16, 6), (9, 1, 1, 6)] if c.tier == 'thorough' else []):
        js.append({'kind': 'png', 'stage': st('rl', pred=15, cols=cols, colors=colors, bpc=bpc), 'alphabet': [0, 1, 2, 3, 4] + [255] * (c.tier == 'thorough'),
                   'min': n, 'max': n, 'head': []})
    js.append({'kind': 'png', 'stage': st('rl', pred=12, cols=1), 'alphabet': [0, 1, 2, 3, 4, 130], 'min': 4, 'max': c.n(4, 6), 'head': []})
    return js


def generated(c, limit):
    js = jobs(c)
    runs = []
    for part in (js[:5], js[5:]):
        r = c.tlc('FiltersGen', cfg('Gen', ['Emitted', 'ComesBack', 'BytesOnly', 'Progress'], 'GCase'), files={'conf.json': json.dumps({'jobs': part})},
                  env={'CONF': 'conf.json'}, coverage=True)
        c.fired('FiltersGen', {k: v[1] for k, v in r.actions.items()})
        for x in r.records:
            runs.append((part[x['j'] - 1], x))
        if {x['j'] for x in r.records} != set(range(1, len(part) + 1)):
            raise vlib.MachineryError('a job generated nothing')
    c.fired('FiltersGen', {}, ['Again'])
    runs.sort(key=lambda x: json.dumps(x))
    c.notes['generated_behaviours'] = len(runs)
    if len(runs) > limit:
        runs = c.rng.sample(runs, limit)
    cases = [{'data': x['data'], 'stages': [j['stage']], 'seed': i} for i, (j, x) in enumerate(runs)]
    for (j, x), k, o in zip(runs, cases, vlib.run_real(filters.read, cases)):
        if o['exc'] != 'none' or o['data'] != x['out'] or not o['same']:
            c.violation('enumerated data of the %s filter' % j['stage']['f'], {'stages': k['stages'], 'data': repr(bytes(k['data']))}, o, x['out'])
    c.traces += len(runs)
    c.notes['generated_behaviours_replayed'] = len(runs)


def tlc(c, recs, selftest=False):
    run = vlib.run_tlc if selftest else c.tlc
    r = run('FiltersTrace', cfg('Trace', ['TraceVerdict', 'BytesOnly'], 'TCase'), files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'}, coverage=True)
    if not selftest:
        c.fired('FiltersTrace', {k: v[1] for k, v in r.actions.items()})
    v = {x['id']: x for x in r.records}
    if len(v) != len(recs) or any(x['bad'] for x in v.values()):
        raise vlib.MachineryError('no verdict, or an illegal encoding')
    return [v[i + 1]['clause'] for i in range(len(recs))]


def run(c):
    generated(c, c.n(16000, 200000))
    cases = [filters.random_case(c.rng) for _ in range(c.n(1500, 12000))] + [filters.random_case(c.rng, True) for _ in range(c.n(4, 40))]
    recs = []
    for k, o in zip(cases, vlib.run_real(filters.read, cases)):
        recs.append({'data': k['data'], 'stages': k['stages'], 'obs': {'exc': o['exc'], 'data': o.get('data', []), 'same': o.get('same', True)}})
    for base in range(0, len(recs), 2000):
        for i, x in enumerate(tlc(c, recs[base:base + 2000])):
            if x:
                k = cases[base + i]
                c.violation(x, {'stages': [{a: b for a, b in s.items() if a != 'plain'} for s in k['stages']], 'pdf': repr(filters.build(k)[0])}, recs[base + i]['obs'])
    c.fired('FiltersTrace', {}, ACTS + ['Opaque', 'PassOn'])
    c.traces += len(recs)
    c.sample({'stages': [{a: b for a, b in s.items() if a != 'plain'} for s in cases[5]['stages']], 'data': repr(bytes(cases[5]['data']))[:300]})
    mut = []
    for x in recs[:300]:
        if len(x['obs']['data']) and len(mut) < 60:
            m = copy.deepcopy(x)
            i = c.rng.randrange(len(m['obs']['data']))
            if c.rng.random() < .5:
                m['obs']['data'][i] ^= 1
            else:
                del m['obs']['data'][i]
            mut.append(m)
    if '' in tlc(c, mut, True):
        raise vlib.MachineryError('corrupted traces were accepted')
    c.notes['corrupted_traces_rejected'] = len(mut)
    c.assumptions += ['inflating (zlib) is not specified: the model takes what was compressed as the result', 'encodings are legal ones']
