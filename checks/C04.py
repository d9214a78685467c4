"""Cross-reference lookup over histories of incremental updates (Xref.tla)."""
import copy, json
import vlib, xrefs

CFG = 'INIT %sInit\nNEXT %sNext\nINVARIANT %s\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANT Objs <- %s\n'


def generated(c, conf, limit=None):
    r = c.tlc('XrefGen', CFG % ('Gen', 'Gen', 'Emitted', 'GObjs'), files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'},
              coverage=True)
    c.fired('XrefGen', {k: v[1] for k, v in r.actions.items()}, ['Update', 'Close'])
    recs = sorted(r.records, key=lambda x: json.dumps(x, sort_keys=True))
    if limit and len(recs) > limit:
        recs = c.rng.sample(recs, limit)
    cases = [dict(x, seed='%s/%s' % (c.seed, i), ask=list(range(1, conf['objs'] + 1))) for i, x in enumerate(recs)]
    for x, k, o in zip(recs, cases, vlib.run_real(xrefs.observe, cases)):
        got = [l['v'] if l['exc'] == 'none' else l['exc'] for l in o['obs']] if 'obs' in o else o['exc']
        if got != x['out']:
            c.violation('lookup after %s updates (%s)' % (len(x['h']), x['dam']), {'case': x, 'pdf': repr(xrefs.build(k, k['seed']))}, got, x['out'])
    c.traces += len(cases)
    c.notes['generated_behaviours_replayed'] = c.notes.get('generated_behaviours_replayed', 0) + len(cases)


def tlc(c, recs, selftest=False):
    run = vlib.run_tlc if selftest else c.tlc
    r = run('XrefTrace', CFG % ('Trace', 'Trace', 'TraceVerdict', 'TObjs'), files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'},
            coverage=True)
    if not selftest:
        c.fired('XrefTrace', {k: v[1] for k, v in r.actions.items()}, ['DoRevise', 'DoDamage', 'DoLookup'])
    v = {x['id']: x['clause'] for x in r.records}
    if len(v) != len(recs):
        raise vlib.MachineryError('no verdict')
    return [v[i + 1] for i in range(len(recs))]


def run(c):
    alld = ['none', 'start', 'prev', 'cycle', 'offset']
    generated(c, {'objs': 2, 'revs': 2, 'damages': alld})
    generated(c, {'objs': 1, 'revs': 4, 'damages': alld}, c.n(6000, 40000))
    if not c.quick:
        generated(c, {'objs': 2, 'revs': 3, 'damages': ['none', 'start']}, 60000)
    cases = []
    while len(cases) < c.n(4000, 40000):
        k = xrefs.random_case(c.rng)
        k['seed'] = c.rng.random()
        cases.append(k)
    obs = vlib.run_real(xrefs.observe, cases)
    recs = []
    dist = {}
    for k, o in zip(cases, obs):
        dist[k['dam']] = dist.get(k['dam'], 0) + 1
        ob = o['obs'] if 'obs' in o else [{'o': k['ask'][0], 'v': -2, 'exc': o['exc']}]
        recs.append({'h': k['h'], 'dam': k['dam'], 'at': k['at'], 'obs': ob})
    for base in range(0, len(recs), 3000):
        for i, x in enumerate(tlc(c, recs[base:base + 3000])):
            if x:
                k = cases[base + i]
                c.violation(x, {'h': k['h'], 'dam': k['dam'], 'at': k['at'], 'pdf': repr(xrefs.build(k, k['seed']))}, obs[base + i])
    c.traces += len(recs)
    c.notes['damage'] = dist
    c.sample({'history': recs[0]['h'], 'damage': recs[0]['dam'], 'lookups': recs[0]['obs'][:3]})
    mut = []
    for r in recs[:60]:
        m = copy.deepcopy(r)
        x = c.rng.choice(m['obs'])
        x['v'] = 7 if x['v'] == -1 else c.rng.choice([-1, x['v'] + 10000])
        mut.append(m)
    if any(x == '' for x in tlc(c, mut, True)):
        raise vlib.MachineryError('a corrupted trace was accepted')
    c.notes['corrupted_traces_rejected'] = len(mut)
    c.assumptions += ['objects start a line of the file; a trailer or a cross-reference stream dictionary with the Root survives',
                      'cross-reference data counts as unusable when it cannot be found or parsed, or when an entry does not lead to the object']
