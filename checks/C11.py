"""Iterators over documents and pages (IterHist.tla)."""
import copy, json
import vlib, interp, iterhist
from interp import op

GEN = 'INIT GenInit\nNEXT GenNext\nINVARIANT Emitted\nINVARIANT HeldLoaded\nCHECK_DEADLOCK FALSE\nCONSTANT Files <- GFiles\n' \
      'PROPERTY Independent\nPROPERTY NeverForgets\n'
TRACE = 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nINVARIANT HeldLoaded\nCHECK_DEADLOCK FALSE\nCONSTANT Files <- TFiles\n'


def two_pages():
    """Two pages that leave state behind, the second failing after its item"""
    res = {'fonts': {'F0': dict(interp.mk_font(__import__('random').Random(5), 'OneFont'))}, 'cs': {}, 'xo': {}}
    s = [{'k': 's', 'v': 0, 'b': [72, 105]}]
    a = [op('rg', [200, 400, 600]), op('re', [0, 0, 9000, 5000]), op('f'), op('q'), op('w', [3000]), op('BT'), op('Tf', [10000], 'F0'),
         op('Tc', [2000]), op('Tj', s=s), op('ET'), op('cm', [2, 0, 0, 2, 5000, 0])]
    b = [op('Q'), op('BT'), op('Tf', [8000], 'F0'), op('Tj', s=s), op('ET'), op('Do', n='Missing')]
    pg = {'mb': [0, 0, 200000, 300000], 'rot': 0, 'res': res}
    return [{'pages': [dict(pg, prog=a), dict(pg, prog=b)], 'end': ''}, {'pages': [dict(pg, prog=b[:-1])], 'end': 'cycle'}]


def generated(c, limit):
    docs = two_pages()
    base = vlib.run_real(iterhist.execute, [{'docs': [(d, 'x') for d in docs], 'seed': '0', 'ops': []}])[0]
    if 'exc' in base:
        c.violation('reading the pages fails', {'docs': 'two_pages'}, base)
        return
    conf = {'files': base['files'], 'max': c.n(9, 11), 'min': c.n(7, 8), 'its': 3, 'docs': 1}
    runs = []
    for k in ([1, 1], [2, 2]):
        conf.update(docs=k[0], max=c.n([9, 0, 8][k[0]] if k[0] == 1 else 8, [11, 0, 9][k[0]] if k[0] == 1 else 9))
        conf['files'] = base['files'] if k[0] == 2 else base['files'][:1]
        r = c.tlc('IterHistGen', GEN, files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'}, coverage=True)
        c.fired('IterHistGen', {a: v[1] for a, v in r.actions.items()})
        runs += r.records
    c.fired('IterHistGen', {}, ['GOpen', 'GPass', 'GRead', 'GNextPage', 'GNextItem', 'GOver', 'GAbandon'])
    runs.sort(key=lambda r: json.dumps(r))
    total = len(runs)
    if total > limit:
        runs = c.rng.sample(runs, limit)
    cases = [{'docs': [(d, 'x') for d in docs], 'seed': str(i), 'ops': r} for i, r in enumerate(runs)]
    for k, o in zip(cases, vlib.run_real(iterhist.execute, cases)):
        bad = 'exc' in o or o['files'] != base['files'] or not o['late'] or [x['r'] for x in o['ops']] != [x['r'] for x in k['ops']]
        if bad:
            c.violation('an enumerated history of iterations', {'ops': [{z: x[z] for z in ('o', 'a', 'b', 'r')} for x in k['ops']]}, o)
    c.traces += len(cases)
    c.notes['generated_behaviours'] = total
    c.notes['generated_behaviours_replayed'] = len(cases)


def tlc(c, recs, selftest=False):
    run = vlib.run_tlc if selftest else c.tlc
    r = run('IterHistTrace', TRACE, files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'}, coverage=True)
    if not selftest:
        c.fired('IterHistTrace', {k: v[1] for k, v in r.actions.items()}, ['TOpen', 'TPass', 'TRead', 'TNextPage', 'TNextItem', 'TOver', 'TAbandon'])
    v = {x['id']: x for x in r.records}
    if len(v) != len(recs):
        raise vlib.MachineryError('no verdict')
    return [v[i + 1] for i in range(len(recs))]


def run(c):
    generated(c, c.n(4000, 60000))
    cases = []
    for _ in range(c.n(900, 9000)):
        docs = [(iterhist.random_doc(c.rng), c.rng.random()) for _ in range(c.rng.choice([1, 1, 2]))]
        cases.append({'docs': docs, 'seed': str(c.rng.randrange(10**9)), 'len': c.rng.choice([20, 40, 80]), 'kw': {'caching': c.rng.random() < .8}})
    recs, src = [], []
    for k, o in zip(cases, vlib.run_real(iterhist.execute, cases)):
        if 'exc' in o:
            c.violation('the history could not be run: ' + o['exc'], {'docs': [repr(iterhist.build(*d)) for d in k['docs']]}, o)
            continue
        recs.append(o)
        src.append(k)
    for base in range(0, len(recs), 3000):
        for i, x in enumerate(tlc(c, recs[base:base + 3000])):
            if x['clause']:
                k, o = src[base + i], recs[base + i]
                c.violation(x['clause'], {'docs': [repr(iterhist.build(*d)) for d in k['docs']], 'ops': o['ops'][:x['n']]}, o['ops'][x['n'] - 1])
    c.traces += len(recs)
    c.sample({'files': recs[0]['files'], 'ops': recs[0]['ops'][:12]})
    mut = []
    for x in recs:
        if len(mut) == 80:
            break
        m = copy.deepcopy(x)
        a = [o for o in m['ops'] if o['r']['k'] in ('page', 'item', 'end')]
        if not a:
            continue
        o = c.rng.choice(a)
        if o['r']['k'] == 'end':
            o['r']['k'] = 'page'
        else:
            o['r']['p' if o['r']['k'] == 'page' else 'v'] += 1
        mut.append(m)
    bad = [x for x in tlc(c, mut, True) if x['clause'] == '']
    if bad:
        raise vlib.MachineryError('corrupted traces were accepted')
    c.notes['corrupted_traces_rejected'] = len(mut)
    c.assumptions += ['what a page yields is taken from a fresh interpreter that reads this page alone; C07-C10 decide whether that is right']
