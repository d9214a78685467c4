"""Page trees: order, inheritance, selection (PageTree.tla)."""
import copy, json
import vlib, pagetree

INV = ['WalkRight', 'Numbered', 'InOrder']


def cfg(kind, emit, doc):
    return 'INIT %sInit\nNEXT %sNext\nINVARIANT %s\nCHECK_DEADLOCK FALSE\nCONSTANT Doc <- %s\n' % (kind, kind, emit, doc) + \
        ''.join('INVARIANT %s\n' % i for i in INV)


def generated(c, conf, limit):
    r = c.tlc('PageTreeGen', cfg('Gen', 'Emitted', 'GDoc'), files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('PageTreeGen', {k: v[1] for k, v in r.actions.items()}, ['Give', 'Skip', 'Descend', 'Leave', 'Ignore'])
    trees = {}
    for x in r.records:
        trees.setdefault(json.dumps([x['d']['root'], x['d']['nodes']]), []).append(x)
    keys = sorted(trees)
    if len(keys) > limit:
        keys = c.rng.sample(keys, limit)
    cases = []
    for i, k in enumerate(keys):
        xs = sorted(trees[k], key=lambda x: json.dumps(x['d']))
        xs = c.rng.sample(xs, min(3, len(xs)))
        cases.append({'d': xs[0]['d'], 'seed': '%s/%s' % (c.seed, i), 'runs': [(x['d']['sel'] or None, x['d']['lim']) for x in xs], 'x': xs})
    for k, o in zip(cases, vlib.run_real(pagetree.observe, cases)):
        for x, run in zip(k['x'], o['runs'] if 'runs' in o else [{'obs': [], 'exc': o['exc']}] * 9):
            if not any(n['k'] == 'page' for n in x['d']['nodes']):
                want, exc = [], 'EmptyDocumentError'
            else:
                want, exc = x['out'], 'none' if x['out'] else 'EmptyDocumentError'
            got = [{z: e[z] for z in ('n', 'pn', 'mb', 'cb', 'rot', 'res')} for e in run['obs']]
            if got != want or run['exc'] != exc:
                c.violation('pages of an enumerated tree', {'d': x['d'], 'pdf': repr(pagetree.build(x['d'], k['seed']))}, run, want)
    c.traces += sum(len(k['runs']) for k in cases)
    c.notes['generated_behaviours_replayed'] = sum(len(k['runs']) for k in cases)


def tlc(c, recs, selftest=False):
    run = vlib.run_tlc if selftest else c.tlc
    r = run('PageTreeTrace', cfg('Trace', 'TraceVerdict', 'TDoc'), files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'}, coverage=True)
    if not selftest:
        c.fired('PageTreeTrace', {k: v[1] for k, v in r.actions.items()}, ['Give', 'Skip', 'Descend', 'Leave', 'Ignore', 'Loop'])
    v = {x['id']: x['clause'] for x in r.records}
    if len(v) != len(recs):
        raise vlib.MachineryError('no verdict')
    return [v[i + 1] for i in range(len(recs))]


def run(c):
    generated(c, {'n': c.n(4, 5), 'sels': [[], [1], [0, 2], [2, 1]], 'lims': [0, 1, 2]}, c.n(5000, 40000))
    cases = []
    for _ in range(c.n(1500, 15000)):
        d = pagetree.random_doc(c.rng)
        n = sum(x['k'] == 'page' for x in d['nodes'])
        k = {'d': d, 'seed': c.rng.random(), 'runs': [(None, 0)] + [pagetree.random_run(c.rng, n) for _ in range(3)]}
        k['kw'] = {'caching': c.rng.random() < .7, 'preload': c.rng.random() < .3 and not d.get('cyclic')}
        cases.append(k)
    recs, src = [], []
    for k, o in zip(cases, vlib.run_real(pagetree.observe, cases)):
        for i, (sel, lim) in enumerate(k['runs']):
            x = o['runs'][i] if 'runs' in o else {'obs': [], 'exc': o['exc']}
            recs.append({'d': dict(k['d'], sel=sel or [], lim=lim), 'obs': x['obs'], 'exc': x['exc']})
            src.append((k, x))
    for base in range(0, len(recs), 6000):
        for i, x in enumerate(tlc(c, recs[base:base + 6000])):
            if x:
                k, o = src[base + i]
                c.violation(x, {'d': recs[base + i]['d'], 'kw': k['kw'], 'pdf': repr(pagetree.build(k['d'], k['seed']))}, o)
    c.traces += len(recs)
    c.sample({'tree': recs[1]['d'], 'pages': recs[1]['obs'][:3]})
    mut = []
    for x in recs:
        if len(x['obs']) < 2 or len(mut) == 80 or x['d']['root'] == 0:
            continue
        m = copy.deepcopy(x)
        i = c.rng.randrange(len(m['obs']))
        f = c.rng.choice(['n', 'pn', 'mb', 'cb', 'rot', 'res', 'drop', 'twice'])
        if f == 'drop':
            del m['obs'][i]
        elif f == 'twice':
            m['obs'].insert(i, m['obs'][i])
        else:
            m['obs'][i][f] += 1
        mut.append(m)
    bad = [m for m, x in zip(mut, tlc(c, mut, True)) if x == '']
    # loose pages have no order and no inherited attributes to check
    if len(bad) > 8:
        raise vlib.MachineryError('corrupted traces were accepted')
    c.notes['corrupted_traces_rejected'] = len(mut) - len(bad)
    c.assumptions += ['unusable boxes are only judged where no other box could be inherited instead',
                      'without any page in the tree, page objects are delivered in any order']
