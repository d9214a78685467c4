"""Outlines and named destinations (Outline.tla, NameTree.tla)."""
import copy, json
import vlib, outlines

OUT = ['Skip', 'Descend', 'List', 'Finish']
NAMES = ['Again', 'Exclude', 'Search', 'Answer', 'Finish']


def generate(c, module, conf, invs, acts):
    r = c.tlc(module, 'INIT GenInit\nNEXT GenNext\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n' + ''.join('INVARIANT %s\n' % i for i in invs),
              files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired(module, {k: v[1] for k, v in r.actions.items()}, acts)
    return sorted(r.records, key=lambda x: json.dumps(x))


def verdicts(c, module, recs, acts, selftest=False):
    r = (vlib.run_tlc if selftest else c.tlc)(module, 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\n',
                                              files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'}, coverage=True)
    if not selftest:
        c.fired(module, {k: v[1] for k, v in r.actions.items()}, acts)
    v = {x['id']: x['clause'] for x in r.records}
    if len(v) != len(recs):
        raise vlib.MachineryError('no verdict')
    return [v[i + 1] for i in range(len(recs))]


def listed(c):
    recs = generate(c, 'OutlineGen', {'n': c.n(3, 4)}, ['Once', 'Bounded', 'Complete', 'Ordered'], ['Skip', 'Enter'])
    limit = c.n(2500, 30000)
    if len(recs) > limit:
        recs = [x for x in recs if x['tree']][:limit // 3] + c.rng.sample(recs, limit - limit // 3)
    cases = []
    for x in recs:
        d = [{'first': f, 'next': n, 'last': bool(f), 'titled': i > 0, 'title': [65 + i], 'dest': (i + 1) * (a and 1), 'act': 0, 'se': 0} for i, (f, n, a) in enumerate(x['d'])]
        cases.append({'d': d, 'seed': c.rng.random(), 'caching': c.rng.random() < .7, 'twice': c.rng.random() < .3, 'out': x['out']})
    for k, o in zip(cases, vlib.run_real(outlines.observe_outlines, cases)):
        want = [[x['level'], [64 + x['n']], x['n']] for x in k['out']]
        got = [[x['level'], x['title'], x['dest']] for x in o.get('obs', [])]
        if got != want or o['exc'] != 'none':
            c.violation('entries of an enumerated outline', {'d': k['d'], 'pdf': repr(outlines.outline_pdf(k))}, o, want)
    c.traces += len(cases)
    c.notes['generated_outlines_replayed'] = len(cases)
    ds = [outlines.random_outline(c.rng) for _ in range(c.n(2000, 20000))]
    for n in (400, 1500):
        # more siblings, or levels, than an interpreter's stack has room for
        for k in ('next', 'first'):
            d = [outlines.node(c.rng, i + 1) for i in range(n)]
            d[0].update(titled=False, dest=0, act=0, se=0, first=2, last=True)
            for i in range(1, n - 1):
                d[i][k] = i + 2
                d[i]['last'] = True
            ds.append(d)
    cases = [{'d': d, 'seed': c.rng.random(), 'caching': c.rng.random() < .7, 'twice': c.rng.random() < .3} for d in ds]
    recs = [{'d': k['d'], 'obs': o.get('obs', []), 'exc': o['exc']} for k, o in zip(cases, vlib.run_real(outlines.observe_outlines, cases))]
    for i, x in enumerate(verdicts(c, 'OutlineTrace', recs, OUT)):
        if x:
            c.violation(x, {'d': recs[i]['d'], 'pdf': repr(outlines.outline_pdf(cases[i]))}, recs[i])
    c.traces += len(recs)
    c.sample({'outline': recs[2]['d'][:4], 'listed': recs[2]['obs'][:4]})
    mut = []
    for x in recs[:300]:
        if len(x['obs']) < 2:
            continue
        m = copy.deepcopy(x)
        i = c.rng.randrange(len(m['obs']))
        f = c.rng.choice(['level', 'title', 'dest', 'act', 'se', 'drop', 'twice'])
        if f == 'drop':
            del m['obs'][i]
        elif f == 'twice':
            m['obs'].insert(i, m['obs'][i])
        elif f == 'title':
            m['obs'][i][f].append(65)
        else:
            m['obs'][i][f] += 1
        mut.append(m)
    if not c.violations:
        if '' in verdicts(c, 'OutlineTrace', mut, OUT, True):
            raise vlib.MachineryError('corrupted traces were accepted')
        c.notes['corrupted_outlines_rejected'] = len(mut)


def looked_up(c):
    recs = generate(c, 'NameTreeGen', {'n': c.n(3, 4), 'values': ['n0', 'a7', 'a0', 'd8', 'd0']}, ['Right', 'Only'], ['Again', 'Exclude', 'Search'])
    trees = {}
    for x in recs:
        trees.setdefault(json.dumps([x['t'], x['old']]), []).append(x)
    cases = []
    for key in sorted(trees):
        xs = trees[key]
        cases.append({'t': xs[0]['t'], 'old': xs[0]['old'], 'ks': [x['k'] for x in xs], 'seed': c.rng.random(), 'caching': c.rng.random() < .7, 'xs': xs})
    for k, o in zip(cases, vlib.run_real(outlines.observe_names, cases)):
        qs = o.get('qs') or [{'tree': o['exc'], 'dest': o['exc']}] * len(k['xs'])
        for x, q in zip(k['xs'], qs):
            if q != {'tree': x['found'], 'dest': x['dest']}:
                c.violation('lookup in an enumerated name tree', {'t': x['t'], 'old': x['old'], 'k': x['k'], 'pdf': repr(outlines.names_pdf(k))}, q, {'tree': x['found'], 'dest': x['dest']})
    c.traces += len(cases)
    c.notes['generated_lookups_replayed'] = len(recs)
    cases = [outlines.random_names(c.rng) for _ in range(c.n(2000, 20000))]
    recs = []
    for k, o in zip(cases, vlib.run_real(outlines.observe_names, cases)):
        qs = o.get('qs') or [{'tree': o['exc'], 'dest': o['exc']}] * len(k['ks'])
        recs.append({'t': k['t'], 'old': k['old'], 'qs': [dict(q, k=n) for q, n in zip(qs, k['ks'])]})
    for i, x in enumerate(verdicts(c, 'NameTreeTrace', recs, NAMES)):
        if x:
            c.violation(x, dict(recs[i], pdf=repr(outlines.names_pdf(cases[i]))), recs[i]['qs'])
    c.traces += len(recs)
    c.sample({'names': recs[1]})
    mut = []
    for x in recs[:300]:
        m = copy.deepcopy(x)
        q = c.rng.choice(m['qs'])
        f = c.rng.choice(['tree', 'dest'])
        q[f] = 'a999' if q[f] == 'missing' else c.rng.choice(['missing', 'a999'])
        mut.append(m)
    if not c.violations:
        if '' in verdicts(c, 'NameTreeTrace', mut, NAMES, True):
            raise vlib.MachineryError('corrupted traces were accepted')
        c.notes['corrupted_lookups_rejected'] = len(mut)


def run(c):
    listed(c)
    looked_up(c)
    c.assumptions += ['outline entries and nodes of name trees are indirect objects, the limits of a node hold for what is below it and names occur once',
                      'entries with a title and a destination or an action are listed; others only lead on to more entries',
                      'titles are in PDFDocEncoding or UTF-16 with a byte order mark; codes undefined there are not judged']
