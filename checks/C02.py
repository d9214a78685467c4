"""Object assembly (Objects.tla)."""
import copy, json
import vlib, objs
from objs import t_int, t_name, t_open, t_close, t_leaf, T_NULL, T_R

INV = ['FramesTyped', 'PosOrdered', 'NotEarly']
REQ = ['Leaf', 'NullTok', 'Open', 'CloseSeq', 'CloseDict', 'OddDict', 'StrayClose', 'RefTok']
ALPH = [[t_int(1), t_name(0), t_name(1), T_NULL, t_open('d'), t_close('d'), t_open('a'), t_close('a')],
        [t_int(1), t_int(0), T_R, t_open('a'), t_close('a'), t_open('p'), t_close('p')],
        [t_name(0), t_leaf('str', 's28', b'(\\()'), t_open('d'), t_close('d'), t_open('p'), t_close('p'), t_close('a')]]


def clean(t, p):
    return {'k': t['k'], 'v': t['v'], 's': t['s'], 'p': p}


def validate(c, raw, selftest=False, obs=None):
    obs = obs or vlib.run_real(objs.observe, raw)
    recs = []
    for k, o in zip(raw, obs):
        runs = o.get('runs') or [{'ev': [], 'exc': o['exc'], 'pos': False, 'how': 'run'}]
        recs.append({'toks': [clean(t, p) for t, p in zip(k['toks'], k['pos'])], 'runs': runs})
    cfg = 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\n' + ''.join('INVARIANT %s\n' % i for i in INV)
    un = 0
    for base in range(0, len(recs), 3000):
        part = recs[base:base + 3000]
        r = (vlib.run_tlc if selftest else c.tlc)('ObjectsTrace', cfg, files={'cases.json': json.dumps(part)},
                                                 env={'CASES': 'cases.json'}, coverage=True)
        v = {x['id']: x['clause'] for x in r.records}
        if len(v) != len(part):
            raise vlib.MachineryError('no verdict')
        if selftest:
            return [v[i + 1] for i in range(len(part))]
        c.fired('ObjectsTrace', {k: x[1] for k, x in r.actions.items()})
        for i in range(len(part)):
            if v[i + 1] == 'unspec':
                un += 1
            elif v[i + 1]:
                c.violation(v[i + 1], raw[base + i]['data'], part[i])
    c.traces += len(recs)
    c.notes['outside_the_specification'] = c.notes.get('outside_the_specification', 0) + un
    return recs


def generated(c, alph, n):
    toks = [dict(clean(t, 0)) for t in alph]
    cfg = 'INIT GenInit\nNEXT GenNext\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n' + ''.join('INVARIANT %s\n' % i for i in INV)
    r = c.tlc('ObjectsGen', cfg, files={'conf.json': json.dumps({'toks': toks, 'max': n})}, env={'CONF': 'conf.json'})
    raw = []
    for x in r.records:
        seq = [alph[i - 1] for i in x['h']]
        data, pos = objs.render(seq, None)
        raw.append({'data': data, 'toks': seq, 'pos': pos, 'file': False})
    obs = vlib.run_real(objs.observe, raw)
    bad = []
    for x, k, o in zip(r.records, raw, obs):
        exp = [{'p': k['pos'][e['p']] if e['p'] >= 0 else -1, 's': e['s']} for e in x['out']]
        got = (o.get('runs') or [{'exc': o.get('exc'), 'ev': None}])[0]
        if got['exc'] != 'none' or got['ev'] != exp:
            bad.append(k)
    c.traces += len(raw) - len(bad)
    c.notes['generated_behaviours_replayed'] = c.notes.get('generated_behaviours_replayed', 0) + len(raw)
    if bad:
        n0 = len(c.violations)
        validate(c, bad[:3000])
        if len(c.violations) == n0:
            raise vlib.MachineryError('replay and trace specification disagree')


def run(c):
    for a in ALPH:
        generated(c, a, c.n(5, 6))
    g = objs.Gen(c.rng)
    raw = []
    for i in range(c.n(1500, 15000)):
        toks = g.tokens(0 if i % 3 else c.rng.randrange(1, 4))
        data, pos = objs.render(toks, c.rng)
        raw.append({'data': data, 'toks': toks, 'pos': pos, 'file': False})
    for i in range(c.n(600, 6000)):
        toks = g.value(c.rng.choice([1, 3, 6]), nested=False)
        data, pos = objs.render(toks, c.rng)
        raw.append({'data': data, 'toks': toks, 'pos': pos, 'file': True})
    recs = validate(c, raw)
    c.fired('ObjectsTrace', {}, REQ)
    c.sample({'tokens': repr(raw[1]['data']), 'objects': recs[1]['runs'][0]['ev']})
    mut, mo = [], []
    for k, rec in zip(raw[:200], recs):
        rr = copy.deepcopy(rec['runs'])
        if rr[0]['ev'] and rr[0]['exc'] == 'none' and len(mut) < 20:
            e = c.rng.choice(rr[0]['ev'])
            e['s'] += '!'
            mut.append(k)
            mo.append({'runs': rr})
    if any(x == '' for x in validate(c, mut, True, mo)):
        raise vlib.MachineryError('a corrupted trace was accepted')
    c.notes['corrupted_traces_rejected'] = len(mut)
    c.assumptions += ['a dictionary in which a key occurs twice, once with null, and dictionary keys that are not names are not judged']
