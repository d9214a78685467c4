"""Shared driver of the checks decided with specs/Interp.tla."""
import copy, json
import vlib, interp
from interp import op

INVS = ['StackBalanced', 'ItemCount', 'BoxesOk', 'TextCovered']


def project(items, proj):
    """The part of the items a property is about."""
    out = []
    for it in items:
        r = {'k': it['k']}
        if 'box' in proj and it['k'] != 'text' or 'glyphbox' in proj and it['k'] == 'text':
            r['bbox'] = it['bbox']
        if 'color' in proj:
            r['sc'], r['nc'] = it['sc'], it['nc']
        if 'width' in proj:
            r['lw'] = it['lw']
        if 'path' in proj:
            r['eo'], r['pts'] = it['eo'], it['pts']
        if 'src' in proj:
            r['src'] = it['src']
        if 'data' in proj:
            r['data'] = it['data']
        bl = []
        for b in it['blocks']:
            e = {'u': [c['u'] for c in b['ch']]}
            if 'glyphbox' in proj:
                e['bbox'], e['cb'] = b['bbox'], [c['bbox'] for c in b['ch']]
            if 'font' in proj:
                e['font'], e['fs'] = b['font'], b['fs']
            if 'color' in proj:
                e['nc'] = b['nc']
            bl.append(e)
        r['blocks'] = bl
        r['kids'] = project(it['kids'], proj)
        out.append(r)
    return out


def observe(x):
    return interp.observe_page(x[1])


def norm(o):
    # an exception the harness caught (hang, recursion) and one the code raised look alike here
    return {'exc': o.get('exc', 'none'), 'items': o.get('items', [])}


def validate(check, pages, datas, obs, proj, known_key='Q-keeps-graphics', invariants=True):
    """Trace validation of observed page runs; classifies every case."""
    recs = [{'page': interp.world(p), 'obs': norm(o), 'proj': proj} for p, o in zip(pages, obs)]
    cfg = 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\nCONSTANT World <- CaseWorld\n'
    if invariants:
        cfg += ''.join('INVARIANT %s\n' % i for i in INVS)
    bad = 0
    for base in range(0, len(recs), 1500):
        part = recs[base:base + 1500]
        r = check.tlc('InterpTrace', cfg, files={'cases.json': json.dumps(part)}, env={'CASES': 'cases.json'}, coverage=True)
        check.fired('InterpTrace', {k: v[1] for k, v in r.actions.items()})
        v = {}
        for x in r.records:
            v.setdefault(x['id'], {})[x['qg']] = x['clause']
        for i in range(1, len(part) + 1):
            d = v.get(i, {})
            if True not in d or False not in d:
                raise vlib.MachineryError('InterpTrace: no verdict for case %d' % (base + i))
            if d[True] == '':
                continue
            if d[False] == '' and (check.pid != 'C07' or check.finding(known_key, d[True])):
                # what Q restores is the business of C07 alone
                continue
            k = base + i - 1
            bad += 1
            check.violation(d[True], {'page': {x: y for x, y in pages[k].items() if x != 'res'},
                                      'pdf': datas[k].decode('latin-1')}, obs[k])
    check.traces += len(recs)
    return bad


def corrupt(rng, obs):
    """Change one recorded leaf; the trace must then be rejected."""
    o = copy.deepcopy(obs)
    its = [i for i in o['items']]
    while its:
        it = rng.choice(its)
        if it['kids'] and rng.random() < 0.7:
            its = it['kids']
            continue
        break
    else:
        return None
    if it['blocks']:
        b = rng.choice(it['blocks'])
        if not b['ch']:
            return None
        rng.choice(b['ch'])['u'] += 1
    else:
        it['k'] = 'rect' if it['k'] != 'rect' else 'curve'
    return o


def binding_selftest(check, pages, obs, proj, n=12):
    idx = [i for i, o in enumerate(obs) if o.get('items') and o.get('exc') == 'none']
    check.rng.shuffle(idx)
    recs = []
    for i in idx[:n]:
        c = corrupt(check.rng, norm(obs[i]))
        if c:
            recs.append({'page': interp.world(pages[i]), 'obs': c, 'proj': proj})
    if not recs:
        return
    cfg = 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\nCONSTANT World <- CaseWorld\n'
    r = vlib.run_tlc('InterpTrace', cfg, files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'})
    acc = [x for x in r.records if x['clause'] == '']
    if acc:
        raise vlib.MachineryError('a corrupted trace was accepted')
    check.notes['corrupted_traces_rejected'] = check.notes.get('corrupted_traces_rejected', 0) + len(recs)


def run_random(check, n, focus, proj, size=None, required=(), split=interp.split_prog):
    pages, datas = [], []
    for i in range(n):
        f = focus[i % len(focus)]
        g = interp.Gen(check.rng, f)
        p = g.page(size or (check.rng.randint(2, f['size']) if 'size' in f else None))
        pages.append(p)
        datas.append(interp.build_case(p, check.rng, split))
    obs = vlib.run_real(observe, list(zip(pages, datas)))
    validate(check, pages, datas, obs, proj)
    if required:
        check.fired('InterpTrace', {}, required)
    binding_selftest(check, pages, obs, proj)
    check.sample({'program': interp.render_prog(pages[0]['prog'], None).decode('latin-1')[:1500],
                  'yielded': [i['k'] for i in norm(obs[0])['items']]})


def run_generated(check, page, stmts, last, minlen, maxlen, proj, simulate=None, first=None, stop=None):
    """Programs enumerated by TLC from the specification, replayed into the code."""
    w = interp.world(page)
    conf = {'pages': [w], 'stmts': stmts, 'min': minlen, 'max': maxlen, 'last': last, 'stop': stop or [], 'first': first or list(range(1, len(stmts) + 1))}
    cfg = ('INIT GenInit\nNEXT GenNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANT World <- GenWorld\n' +
           ''.join('INVARIANT %s\n' % i for i in INVS))
    args = []
    if simulate:
        args = ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(check.seed)]
    r = check.tlc('InterpGen', cfg, files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'}, args=args,
                  coverage=not simulate)
    check.fired('InterpGen', {k: v[1] for k, v in r.actions.items()})
    seen, runs = set(), []
    for rec in r.records:
        key = tuple(rec['hist'])
        if key not in seen:
            seen.add(key)
            runs.append(rec)
    if not runs:
        raise vlib.MachineryError('the specification generated no behaviour')
    pages, datas = [], []
    for rec in runs:
        prog = [o for s in rec['hist'] for o in stmts[s - 1]]
        p = dict(page)
        p['prog'] = prog
        pages.append(p)
        datas.append(interp.build_case(p, None))
    obs = vlib.run_real(observe, list(zip(pages, datas)))
    redo = []
    for i, (rec, o) in enumerate(zip(runs, obs)):
        o = norm(o)
        if o['exc'] != rec['err'] or project(o['items'], proj) != project(rec['out'], proj):
            redo.append(i)
    check.notes['generated_behaviours_replayed'] = check.notes.get('generated_behaviours_replayed', 0) + len(runs)
    check.traces += len(runs) - len(redo)
    if redo:
        # either the recorded deviation or a violation: the trace specification decides
        cap = redo if len(redo) <= 3000 else check.rng.sample(redo, 3000)
        validate(check, [pages[i] for i in cap], [datas[i] for i in cap], [obs[i] for i in cap], proj, invariants=False)
    check.sample({'generated': [interp.render_prog(pages[len(pages) // 2]['prog'], None).decode('latin-1')[:800]]})
