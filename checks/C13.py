"""Group 4 fax decoding (Fax.tla)."""
import copy, json
import vlib, fax

DEC = ['Vertical', 'Pass', 'Horizontal', 'EndBlock', 'OutOfData', 'MakeUp', 'Run1', 'Run2']


def cfg(kind, invs, case):
    return 'INIT %sInit\nNEXT %sNext\nCHECK_DEADLOCK FALSE\nCONSTANT Case <- %s\n' % (kind, kind, case) + ''.join('INVARIANT %s\n' % i for i in invs)


def generated(c, conf, limit):
    r = c.tlc('FaxGen', cfg('Gen', ['Emitted', 'ComesBack', 'RowsProper'], 'GCase'), files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('FaxGen', {k: v[1] for k, v in r.actions.items()}, ['EncPass', 'EncVert', 'EncHoriz', 'Finish', 'Decode'])
    runs = sorted(r.records, key=lambda x: json.dumps(x))
    c.notes['generated_behaviours'] = len(runs)
    if len(runs) > limit:
        runs = c.rng.sample(runs, limit)
    cases = [dict(x, black1=bool(i % 2), seed=i) for i, x in enumerate(runs)]
    for k, o in zip(cases, vlib.run_real(fax.read, cases)):
        if o['exc'] != 'none' or o['rows'] != k['bm']:
            c.violation('an enumerated encoding of a bitmap', {z: k[z] for z in ('data', 'width', 'align', 'rows', 'black1', 'bm')}, o, k['bm'])
    c.traces += len(runs)
    c.notes['generated_behaviours_replayed'] = len(runs)


def tlc(c, recs, selftest=False):
    run = vlib.run_tlc if selftest else c.tlc
    r = run('FaxTrace', cfg('Trace', ['TraceVerdict', 'RowsProper'], 'TCase'), files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'}, coverage=True)
    if not selftest:
        c.fired('FaxTrace', {k: v[1] for k, v in r.actions.items()}, DEC)
    v = {x['id']: x for x in r.records}
    if len(v) != len(recs) or any(x['bad'] for x in v.values()):
        raise vlib.MachineryError('no verdict, or an illegal encoding: %s' % [i for i in range(len(recs)) if i + 1 not in v or v[i + 1]['bad']][:5])
    return [v[i + 1]['clause'] for i in range(len(recs))]


def run(c):
    generated(c, {'sizes': [[1, 1], [1, 3], [2, 2], [3, 2], [4, 2]] + ([[5, 2], [3, 3]] if c.tier == 'thorough' else [])}, c.n(20000, 200000))
    cases = fax.all_runs(c.rng) + [fax.random_case(c.rng) for _ in range(c.n(1500, 12000))]
    recs = []
    for k, o in zip(cases, vlib.run_real(fax.read, cases)):
        recs.append({z: k[z] for z in ('data', 'width', 'align', 'rows', 'bm')})
        recs[-1]['obs'] = {'exc': o['exc'], 'rows': o.get('rows', [])}
    for base in range(0, len(recs), 4000):
        for i, x in enumerate(tlc(c, recs[base:base + 4000])):
            if x:
                c.violation(x, {z: cases[base + i][z] for z in ('data', 'width', 'align', 'rows', 'black1', 'bm')}, recs[base + i]['obs'])
    c.traces += len(recs)
    c.sample({'width': cases[-1]['width'], 'rows': cases[-1]['bm'], 'data': bytes(cases[-1]['data']).hex()[:300]})
    mut = []
    for x in recs:
        if x['obs']['rows'] and len(mut) < 60 and c.rng.random() < .3:
            m = copy.deepcopy(x)
            row = c.rng.choice(m['obs']['rows'])
            if row and c.rng.random() < .5:
                row.pop()
            else:
                m['obs']['rows'].append([])
            mut.append(m)
    if '' in tlc(c, mut, True):
        raise vlib.MachineryError('corrupted traces were accepted')
    c.notes['corrupted_traces_rejected'] = len(mut)
    c.assumptions += ['fill bits of a row are not judged', 'uncompressed mode and the one-dimensional groups are not claimed by the code']
