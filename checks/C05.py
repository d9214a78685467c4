"""Lookups of objects, in any order and caching mode (Lookup.tla)."""
import copy, json
import vlib, lookups


def replay(c, recs, n):
    cases = []
    for i, x in enumerate(recs):
        runs = []
        for cach in (True, False):
            for _ in range(2):
                runs.append((cach, lookups.ops(c.rng, n, 2 * n + 3)))
        cases.append({'doc': x['doc'], 'seed': '%s/%s' % (c.seed, i), 'runs': runs})
    for x, k, o in zip(recs, cases, vlib.run_real(lookups.observe, cases)):
        for i, d in enumerate(x['doc'], 1):
            if x['usable'][i - 1] != lookups.usable(x['doc'], i):
                raise vlib.MachineryError('harness and specification differ about a Length: %r' % x)
        if 'exc' in o:
            c.violation('lookups fail with ' + o['exc'], x, o)
            continue
        for run in o['runs']:
            for e in run['obs']:
                want = x['get' if e['op'] == 'get' else 'fin'][e['o'] - 1]
                if e['exc'] != 'none' or e['v'] != want:
                    c.violation('%s differs from the meaning of the object' % e['op'],
                                {'doc': x['doc'], 'pdf': repr(lookups.build(x['doc'], k['seed'])[0])}, run, want)
                    break
    c.traces += 4 * len(cases)
    c.notes['generated_behaviours_replayed'] = c.notes.get('generated_behaviours_replayed', 0) + 4 * len(cases)


def tlc(c, recs, selftest=False):
    run = vlib.run_tlc if selftest else c.tlc
    r = run('LookupTrace', 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nINVARIANT AgreedUsable\nCHECK_DEADLOCK FALSE\n',
            files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'}, coverage=True)
    if not selftest:
        c.fired('LookupTrace', {k: v[1] for k, v in r.actions.items()}, ['Get', 'Resolve'])
    v = {x['id']: x['clause'] for x in r.records}
    if len(v) != len(recs):
        raise vlib.MachineryError('no verdict')
    return [v[i + 1] for i in range(len(recs))]


def run(c):
    n = 3
    r = c.tlc('LookupGen', 'INIT GenInit\nNEXT GenNext\nINVARIANT Right\nINVARIANT Acyclic\nINVARIANT Terminates\nINVARIANT Emitted\n'
              'CHECK_DEADLOCK FALSE\n', files={'conf.json': json.dumps({'n': n, 'lookups': c.n(2, 3)})}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('LookupGen', {k: v[1] for k, v in r.actions.items()}, ['Lookup', 'Work'])
    recs = sorted(r.records, key=lambda x: json.dumps(x, sort_keys=True))
    replay(c, recs, n)
    cases = []
    for _ in range(c.n(2500, 25000)):
        doc = lookups.random_doc(c.rng)
        runs = [(c.rng.random() < .5, lookups.ops(c.rng, len(doc), c.rng.choice([5, 20, 30]))) for _ in range(2)]
        cases.append({'doc': doc, 'seed': c.rng.random(), 'runs': runs})
    obs = vlib.run_real(lookups.observe, cases)
    recs, src = [], []
    for k, o in zip(cases, obs):
        us = [lookups.usable(k['doc'], i) for i in range(1, len(k['doc']) + 1)]
        rr = o['runs'] if 'runs' in o else [{'caching': True, 'obs': [{'op': 'get', 'o': 1, 'v': -2, 'exc': o['exc']}]}]
        for x in rr:
            recs.append({'doc': k['doc'], 'usable': us, 'obs': x['obs']})
            src.append((k, x))
    for base in range(0, len(recs), 4000):
        for i, x in enumerate(tlc(c, recs[base:base + 4000])):
            if x:
                k, run_ = src[base + i]
                c.violation(x, {'doc': k['doc'], 'pdf': repr(lookups.build(k['doc'], k['seed'])[0])}, run_)
    c.traces += len(recs)
    c.sample({'doc': recs[0]['doc'], 'lookups': recs[0]['obs'][:4]})
    mut = []
    for x in recs[:60]:
        m = copy.deepcopy(x)
        e = c.rng.choice(m['obs'])
        e['v'] = c.rng.choice([-1, 101, 301, 503]) if e['v'] == 102 else 102 if c.rng.random() < .5 and e['v'] != 102 else e['v'] + 1000
        mut.append(m)
    if any(x == '' for x in tlc(c, mut, True)):
        raise vlib.MachineryError('a corrupted trace was accepted')
    c.notes['corrupted_traces_rejected'] = len(mut)
    c.assumptions += ['a stream whose Length is of no use ends with the line end before endstream, so its data must not contain endstream']
