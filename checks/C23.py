"""Damaged documents: what is still read, what is reported, and that it ends (Damage.tla)."""
import copy, json
import vlib, damage, mutated

INV = ['OnlyPages', 'Nested']
ACTS = ['EnterPage', 'EnterNode', 'OwnDescendant', 'NotANode', 'LeaveNode', 'EndOfTree', 'LoosePage', 'NoMorePages', 'Mark', 'Invoke',
        'Text', 'NoOperands', 'Unknown', 'Misplaced', 'Unclosed', 'OddDict', 'EndForm', 'EndPage']


def generated(c, conf, limit):
    cfg = 'INIT GenInit\nNEXT GenNext\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\nCONSTANT Doc <- GDoc\n' + ''.join('INVARIANT %s\n' % i for i in INV)
    conf['bases'] = damage.bases()
    r = c.tlc('DamageGen', cfg, files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('DamageGen', {k: v[1] for k, v in r.actions.items()}, ACTS[:2] + ACTS[3:])
    recs = sorted({json.dumps(x, sort_keys=True) for x in r.records})
    c.notes['enumerated_documents'] = len(recs)
    if len(recs) > limit:
        recs = c.rng.sample(recs, limit)
    xs = [json.loads(x) for x in recs]
    cases = [{'d': x['d'], 'seed': '%s/%d' % (c.seed, i)} for i, x in enumerate(xs)]
    for k, x, o in zip(cases, xs, vlib.run_real(damage.observe, cases)):
        got = o.get('out', [])
        if x['loose']:
            got = sorted(got, key=lambda p: p['n'])
        if got != x['out'] or o.get('err', o.get('exc')) != x['err']:
            c.violation('enumerated damage', {'d': x['d'], 'pdf': repr(damage.build(x['d'], k['seed']))}, o, {'out': x['out'], 'err': x['err']})
    c.traces += len(cases)
    c.notes['generated_behaviours_replayed'] = len(cases)


def liveness(c):
    # every walk comes to an end
    cfg = 'SPECIFICATION GenSpec\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\nCONSTANT Doc <- GDoc\n'
    c.tlc('DamageGen', cfg, files={'conf.json': json.dumps({'bases': damage.bases(), 'pairs': 0, 'pick': 0})}, env={'CONF': 'conf.json'})


def tlc(c, recs, selftest=False):
    cfg = 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\nCONSTANT Doc <- TDoc\n' + ''.join('INVARIANT %s\n' % i for i in INV)
    run = vlib.run_tlc if selftest else c.tlc
    r = run('DamageTrace', cfg, files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'}, coverage=True)
    if not selftest:
        c.fired('DamageTrace', {k: v[1] for k, v in r.actions.items()}, ACTS)
    v = {x['id']: x['clause'] for x in r.records}
    if len(v) != len(recs):
        raise vlib.MachineryError('no verdict')
    return [v[i + 1] for i in range(len(recs))]


def traces(c):
    cases = [{'d': damage.random_doc(c.rng), 'seed': c.rng.random(), 'kw': {'caching': c.rng.random() < .8}} for _ in range(c.n(3000, 40000))]
    recs = []
    for k, o in zip(cases, vlib.run_real(damage.observe, cases)):
        recs.append({'d': k['d'], 'out': o.get('out', []), 'err': o.get('err', o.get('exc'))})
    for base in range(0, len(recs), 6000):
        for i, x in enumerate(tlc(c, recs[base:base + 6000])):
            if x:
                k = cases[base + i]
                c.violation(x, {'d': k['d'], 'kw': k['kw'], 'pdf': repr(damage.build(k['d'], k['seed']))}, recs[base + i])
    c.traces += len(recs)
    c.sample({'document': recs[0]['d'], 'pages': recs[0]['out']})
    mut = []
    for x in recs:
        if len(mut) == 100:
            break
        if not x['out'] or c.violations:
            continue
        m = copy.deepcopy(x)
        p = c.rng.choice(m['out'])
        f = c.rng.choice(['drop', 'err', 'item', 'lose', 'n', 'end'])
        if f == 'drop':
            m['out'].remove(p)
        elif f == 'err':
            p['err'] = '' if p['err'] else 'InvalidOperation'
        elif f == 'item':
            p['items'].append(1)
        elif f == 'lose':
            if not p['items']:
                continue
            p['items'].pop()
        elif f == 'n':
            p['n'] += 1
        else:
            m['err'] = 'X'
        mut.append(m)
    if mut:
        bad = [m for m, x in zip(mut, tlc(c, mut, True)) if x == '']
        if bad:
            raise vlib.MachineryError('corrupted traces were accepted')
        c.notes['corrupted_traces_rejected'] = len(mut)


def sessions(c):
    cases = [{'seed': '%s/%d' % (c.seed, i), 'caching': i % 4 > 0} for i in range(c.n(1600, 40000))]
    obs = vlib.run_real(mutated.observe, cases, timeout=60)
    recs = [o['ev'] if 'ev' in o else [{'e': 'fate', 'v': {'Hang': 'does not end', 'MemoryError': 'exhausts the memory'}.get(o['exc'], 'dies: %s' % o['exc'])}]
            for o in obs]
    cfg = 'INIT Init\nNEXT Next\nINVARIANT Verdict\nCHECK_DEADLOCK FALSE\n'

    def judge(recs, run):
        r = run('Session', cfg, files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'}, coverage=True)
        v = {x['id']: x['clause'] for x in r.records}
        if len(v) != len(recs):
            raise vlib.MachineryError('no verdict')
        return [v[i + 1] for i in range(len(recs))], r
    for base in range(0, len(recs), 4000):
        v, r = judge(recs[base:base + 4000], c.tlc)
        c.fired('Session', {k: x[1] for k, x in r.actions.items()}, ['Page', 'Item', 'EndPage', 'PageError', 'End', 'Error'])
        for i, x in enumerate(v):
            if x:
                k = cases[base + i]
                c.violation(x, {'case': k, 'pdf': repr(mutated.make(k['seed']))}, recs[base + i][:60])
    c.traces += len(recs)
    mut = []
    for x in recs:
        if len(mut) == 40 or c.violations:
            break
        m = copy.deepcopy(x)
        i = c.rng.randrange(len(m))
        f = c.rng.choice(['drop', 'twice', 'cut', 'fate'])
        if f == 'drop':
            del m[i]
        elif f == 'twice':
            m.insert(i, m[i])
        elif f == 'cut':
            del m[i:]
        else:
            m.insert(i, {'e': 'fate', 'v': 'x'})
        mut.append(m)
    if mut:
        bad = [m for m, x in zip(mut, judge(mut, vlib.run_tlc)[0]) if x == '']
        if bad:
            raise vlib.MachineryError('corrupted sessions were accepted')
        c.notes['corrupted_sessions_rejected'] = len(mut)


def run(c):
    sessions(c)
    generated(c, {'pairs': c.n(97, 11), 'pick': c.seed % 11}, c.n(4000, 60000))
    liveness(c)
    traces(c)
