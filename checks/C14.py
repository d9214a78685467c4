"""Encrypted documents: passwords, permission, contents (Crypt.tla)."""
import copy, json
import vlib, crypt

INV = ['OutcomeRight', 'AllPlain']
ACTS = ['Unsupported', 'Encode', 'TryUser', 'TryOwner', 'TryHash', 'Permit', 'Get', 'GetMember', 'Data']
OBJS = [{'k': k, 'at': a} for k, a in (('plain', 0), ('stream', 0), ('cont', 0), ('member', 3), ('meta', 0), ('xref', 0))]


def cfg(kind, emit, doc):
    return 'INIT %sInit\nNEXT %sNext\nINVARIANT %s\nCHECK_DEADLOCK FALSE\nCONSTANT Doc <- %s\n' % (kind, kind, emit, doc) + \
        ''.join('INVARIANT %s\n' % i for i in INV)


def generated(c, n, limit):
    pws = crypt.pws() if n == 0 else [[], [111, 119]]
    r = c.tlc('CryptGen', cfg('Gen', 'Emitted', 'GDoc'), files={'conf.json': json.dumps({'n': n, 'pws': pws})}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('CryptGen', {k: v[1] for k, v in r.actions.items()}, ACTS[:6] if n == 0 else ACTS[6:])
    recs = sorted(r.records, key=lambda x: json.dumps(x, sort_keys=True))
    if len(recs) > limit:
        recs = c.rng.sample(recs, limit)
    cases = []
    for i, x in enumerate(recs):
        t = x['t']
        d = {'s': t['s'], 'user': pws[t['u'] - 1], 'owner': pws[t['w'] - 1], 'pw': pws[t['a'] - 1], 'perm': t['p'], 'check': t['c'],
             'meta': t['m'], 'caching': t['k'], 'objs': OBJS, 'script': t['h']}
        cases.append({'d': d, 'seed': '%s/%s/%s' % (c.seed, n, i)})
    for k, x, o in zip(cases, recs, vlib.run_real(crypt.observe, cases)):
        want = {'open': x['ph'], 'doc': 'open' if x['ph'] == 'denied' else x['ph'], 'page': 'plain' if x['ph'] == 'open' else 'none', 'got': x['got']}
        if o != want:
            c.violation('enumerated attempt on an encrypted document', {'d': k['d'], 'seed': k['seed']}, o, want)
    c.traces += len(cases)
    c.notes['generated_behaviours_replayed'] = c.notes.get('generated_behaviours_replayed', 0) + len(cases)


def tlc(c, recs, selftest=False):
    run = vlib.run_tlc if selftest else c.tlc
    r = run('CryptTrace', cfg('Trace', 'TraceVerdict', 'TDoc'), files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'}, coverage=True)
    if not selftest:
        c.fired('CryptTrace', {k: v[1] for k, v in r.actions.items()}, ACTS)
    v = {x['id']: x['clause'] for x in r.records}
    if len(v) != len(recs):
        raise vlib.MachineryError('no verdict')
    return [v[i + 1] for i in range(len(recs))]


def run(c):
    generated(c, 0, c.n(4000, 40000))
    generated(c, c.n(3, 4), c.n(3000, 30000))
    cases = [{'d': crypt.random_doc(c.rng), 'seed': '%s/r/%d' % (c.seed, i)} for i in range(c.n(4000, 40000))]
    recs = []
    for k, o in zip(cases, vlib.run_real(crypt.observe, cases)):
        if 'open' not in o:
            o = {'open': o['exc'], 'doc': o['exc'], 'page': 'none', 'got': []}
        recs.append({'d': k['d'], 'obs': o})
    for base in range(0, len(recs), 5000):
        for i, x in enumerate(tlc(c, recs[base:base + 5000])):
            if x:
                k = cases[base + i]
                c.violation(x, {'d': k['d'], 'seed': k['seed'], 'pdf': repr(crypt.build(k['d'], k['seed'])[0])}, recs[base + i]['obs'])
    c.traces += len(recs)
    c.sample(next(x for x in recs if x['obs']['open'] == 'open' and len(x['d']['script']) > 3))
    mut = []
    for x in recs[:600]:
        m = copy.deepcopy(x)
        if x['obs']['got'] and c.rng.random() < .6:
            i = c.rng.randrange(len(x['obs']['got']))
            m['obs']['got'][i] = 'other'
        else:
            m['obs']['open'] = 'refused' if x['obs']['open'] != 'refused' else 'open'
        mut.append(m)
    bad = [m for m, x in zip(mut, tlc(c, mut, True)) if x == '']
    if bad:
        raise vlib.MachineryError('corrupted traces were accepted: %d' % len(bad))
    c.notes['corrupted_traces_rejected'] = len(mut) - len(bad)
    c.assumptions += ['the primitives (MD5, SHA-256, AES) of hashlib and pycryptodome are right; RC4 is implemented again',
                      'strings in the dictionary of a metadata stream are not judged',
                      'SASLprep of AES-256 passwords is not modelled']
