"""Generated and random fonts against SimpleFont.tla and CidFont.tla."""
import copy, json
import fonts, vlib

CONSTS = 'CONSTANTS\n  Glyphs <- AllGlyphs\n  Metrics <- AllMetrics\n'


def agl(s):
    return {'k': 'agl', 's': s, 'v': []}


def uni(*v):
    return {'k': 'uni', 's': 'uni' + ''.join('%04X' % x for x in v), 'v': list(v)}


def named(*cs, suffix=''):
    return {'k': 'name', 'n': 0, 'cs': list(cs), 'suffix': suffix}


def at(n):
    return {'k': 'at', 'n': n, 'cs': [], 'suffix': ''}


def table(first=0, widths=(), has=True, missing=0, std=''):
    return {'first': first, 'widths': list(widths), 'haswidths': has, 'missing': missing, 'std': std}


def simple_cases(c, n, limit, what):
    codes = [39, 64, 65, 66, 67, 173]
    conf = {'n': n + 1, 'm': min(n, 2) if what == 'text' else 1, 'codes': codes, 'bases': ['WinAnsiEncoding', 'MacRomanEncoding'],
            'diffs': [at(64), at(66), named(agl('eacute')), named(uni(0x41, 0x301)), named({'k': '?', 's': 'nosuch', 'v': []}), named(agl('f'), agl('i'), suffix='.x')],
            'entries': [{'k': 'char', 'lo': 65, 'hi': 65, 'units': [0xd83d, 0xde00], 'list': []}, {'k': 'char', 'lo': 66, 'hi': 66, 'units': [], 'list': []},
                        {'k': 'range', 'lo': 64, 'hi': 66, 'units': [0x66, 0x3b1], 'list': []},
                        {'k': 'array', 'lo': 65, 'hi': 66, 'units': [], 'list': [[0x42, 0x43], [0x44]]}],
            'tables': [table(65, [5000, 0, 2505], missing=3000)] if what == 'text' else [table(65, [5000, 0, 2505], missing=3000), table(has=False, std='Helvetica'), table(has=False, missing=1500)]}
    r = c.tlc('SimpleFontGen', 'INIT GenInit\nNEXT GenNext\nINVARIANT Encodes\nINVARIANT Functional\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n' + CONSTS,
              files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('SimpleFontGen', {k: v[1] for k, v in r.actions.items()}, ['Difference', 'Encoded', 'Mapping', 'Complete'])
    recs = sorted(r.records, key=lambda x: json.dumps(x['f']))
    if len(recs) > limit:
        recs = c.rng.sample(recs, limit)
    out = []
    for x in recs:
        for d in x['f']['diffs']:
            d.setdefault('suffix', '')
        out.append({'f': x['f'], 'codes': codes + [0, 255], 'ignore': True, 'x0': 1000, 'seed': c.rng.randrange(1 << 30)})
    return out


def judge(c, module, cases, obs, what, acts):
    recs = [dict({k: v for k, v in x.items() if k != 'seed'}, what=what, **o) for x, o in zip(cases, obs)]
    for i, v in enumerate(verdicts(c, module, recs, acts)):
        if v['clause'] == 'silent':
            c.notes['not_judged'] = c.notes.get('not_judged', 0) + 1
        elif v['clause']:
            c.violation(v['clause'], cases[i], obs[i])
    c.traces += len(recs)
    return recs


def verdicts(c, module, recs, acts=None):
    out = []
    for base in range(0, len(recs), 2000):
        part = recs[base:base + 2000]
        r = (c.tlc if acts else vlib.run_tlc)(module, 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\n' + (CONSTS if module.startswith('Simple') else ''),
                                             files={'cases.json': json.dumps(part)}, env={'CASES': 'cases.json'}, coverage=acts is not None)
        if acts and base == 0:
            c.fired(module, {k: v[1] for k, v in r.actions.items()}, acts)
        v = {x['id']: x for x in r.records}
        if len(v) != len(part):
            raise vlib.MachineryError('no verdict')
        out += [v[i + 1] for i in range(len(part))]
    return out


SIMPLE = ['Difference', 'Encoded', 'Mapping', 'Mappings', 'Shown']


def simple(c, what, n, limit, nrandom):
    g = simple_cases(c, n, limit, what)
    judge(c, 'SimpleFontTrace', g, observe(fonts.observe_simple, g), what, SIMPLE)
    c.notes['generated_fonts_replayed'] = len(g)
    cases = []
    for _ in range(nrandom):
        f = fonts.random_simple(c.rng)
        cases.append({'f': f, 'codes': fonts.codes_for(c.rng, f, c.rng.choice([1, 3, 10, 40])), 'ignore': c.rng.random() < .8,
                      'x0': 1000 * c.rng.randrange(100), 'seed': c.rng.randrange(1 << 30)})
    recs = judge(c, 'SimpleFontTrace', cases, observe(fonts.observe_simple, cases), what, SIMPLE + ['Failed', 'End'])
    c.sample({k: recs[0][k] for k in ('f', 'codes', 'os', 'exc')})
    mut = []
    for x in recs:
        if x['exc'] == 'none' and x['os'] and len(mut) < 200:
            m = copy.deepcopy(x)
            o = c.rng.choice(m['os'])
            if what == 'text':
                if not o['t']:
                    continue
                o['t'][0] += 1
            else:
                o['x1'] += 7
            mut.append(m)
    if not c.violations and mut:
        ok = sum(v['clause'] == '' for v in verdicts(c, 'SimpleFontTrace', mut))
        if ok > len(mut) // 10:
            raise vlib.MachineryError('corrupted traces accepted: %d of %d' % (ok, len(mut)))
        c.notes['corrupted_traces_rejected'] = len(mut) - ok


def observe(fn, cases):
    return [o if 'os' in o else {'os': [], 'exc': o['exc']} for o in vlib.run_real(fn, cases)]


COMPOSITE = ['Coding', 'Coded', 'Mapping', 'Mappings', 'Measuring', 'Measured', 'Cutting', 'Dropping', 'Cut', 'Shown']


def plain(**kw):
    f = {'cm': {'kind': 'identity', 'wmode': 0, 'entries': []}, 'hasbf': False, 'bf': [], 'hascoll': False, 'collh': [], 'collv': [], 'hasttf': False, 'ttf': [],
         'w': [], 'w2': [], 'dw': 10000, 'dw2': [8800, -10000], 'missing': 0}
    f.update(kw)
    return f


def char(lo, cid):
    return {'k': 'char', 'lo': lo, 'hi': lo, 'cid': cid, 'of': []}


def rng_(lo, hi, cid):
    return {'k': 'range', 'lo': lo, 'hi': hi, 'cid': cid, 'of': []}


def generate(c, conf, acts):
    r = c.tlc('CidFontGen', 'INIT GenInit\nNEXT GenNext\nINVARIANT Cuts\nINVARIANT Numbered\nINVARIANT PrefixFree\nINVARIANT Single\nINVARIANT Grouped\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n',
              files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('CidFontGen', {k: v[1] for k, v in r.actions.items()}, acts)
    return sorted(r.records, key=lambda x: json.dumps(x))


def case(c, f, strs, ignore=True):
    return {'f': f, 'strs': strs, 'ignore': ignore, 'x0': 1000 * c.rng.randrange(100), 'y0': 1000 * c.rng.randrange(500, 900), 'seed': c.rng.randrange(1 << 30)}


def after(x):
    """the case in which the map used by that of case x is the map of another font, shown afterwards"""
    f = dict(x['f'], cm={'kind': 'table', 'wmode': 0, 'entries': x['f']['cm']['entries'][0]['of'], 'name': 'Use%d-0' % x['seed']})
    return dict(x, f=f, before=x['f'], ignore=True)


def cmap_cases(c, n, length, limit):
    """strings cut by the codes of a few CMaps"""
    out = []
    entries = [char([0x41], 7), char([0x81, 0x41], 9), rng_([0x81, 0x41], [0x81, 0x43], 20), rng_([0x40], [0x42], 40),
               {'k': 'use', 'lo': [], 'hi': [], 'cid': 0, 'of': [char([0x40], 3), char([0x81, 0x41], 600), char([0x82, 0x81, 0x40], 500)]}]
    base = {'k': 1, 'items': [], 'items_n': 0}
    recs = generate(c, dict(base, identity=False, n=n, entries=entries, len=length, bytes=[0x41, 0x81, 0x82, 0x40]), ['Coding', 'Cutting', 'Cut', 'Measured'])
    recs = c.rng.sample(recs, limit) if len(recs) > limit else recs
    for x in recs:
        use = [e for e in x['es'] if e['k'] == 'use']
        # the CMaps used come first
        if use and x['es'][0]['k'] != 'use' or len(use) > 1:
            continue
        cids = [7, 9, 20, 21, 22, 40, 41, 42, 3, 500, 600]
        coll = [{'cid': i, 'v': [0x100 + i]} for i in cids]
        out.append(case(c, plain(cm={'kind': 'table', 'wmode': c.rng.choice([0, 0, 1]), 'entries': x['es']}, hascoll=True, collh=coll, collv=coll), [x['s'], x['s']]))
        if use:
            # and the map that is used, in a font of its own, is still what it was
            out.append(after(out[-1]))
        if c.rng.random() < .3:
            bf = [{'k': 'char', 'lo': n, 'hi': n, 'units': [0x200 + n % 1000], 'list': []} for n in (0x40, 0x41, 0x42, 0x8141, 0x8143, 0x828140, 7, 40)]
            out.append(case(c, plain(cm={'kind': 'table', 'wmode': 0, 'entries': x['es']}, hasbf=True, bf=bf), [x['s'], x['s']]))
    recs = generate(c, dict(base, identity=True, n=0, entries=[], len=5, bytes=[0, 65, 255]), ['Cutting', 'Cut', 'Measured'])
    for x in recs:
        out.append(case(c, plain(hasbf=True, bf=[{'k': 'char', 'lo': 65, 'hi': 65, 'units': [0x41], 'list': []}, {'k': 'range', 'lo': 0, 'hi': 1, 'units': [0x61], 'list': []}]), [x['s'], x['s']]))
    return out


def width_cases(c, n, limit):
    out = []
    for k in (1, 3):
        def number(v, cid=False):
            return {'k': 'n', 'n': v, 'list': [], 'cid': cid}

        def listed(*v):
            return {'k': 'list', 'n': 0, 'list': list(v), 'cid': False}
        # numbers that can be a CID and a metric (metrics count in tenths)
        items = [number(1), number(3), listed(*[2500] * k), listed(*([5000] * k + [7500] * k)), listed()]
        recs = generate(c, {'identity': True, 'n': 0, 'entries': [], 'len': 0, 'bytes': [], 'k': k, 'items': items, 'items_n': n + (k == 3)}, ['Measuring', 'Measured'])
        recs = [dict(x, ws=ws) for x in recs for ws in [mark(x['ws'], k)] if ws is not None]
        recs = c.rng.sample(recs, limit) if len(recs) > limit else recs
        for x in recs:
            ws = x['ws']
            f = plain(cm={'kind': 'identity', 'wmode': 0 if k == 1 else 1, 'entries': []}, dw=c.rng.choice([10000, 0, 3000]), dw2=c.rng.choice([[8800, -10000], [7000, -5000]]), missing=c.rng.choice([0, 1000]))
            f['w' if k == 1 else 'w2'] = ws
            out.append(case(c, f, [[0, i] for i in range(6)]))
    return out


def mark(ws, k):
    """which numbers of a width array are CIDs; None for an array in which a list does not follow one number
    (a number that was meant as a metric would be a CID there)"""
    out, n = [], 0
    for i in ws:
        if i['k'] == 'list':
            if n != 1:
                return None
            n = 0
            out.append(i)
        else:
            out.append(dict(i, cid=n < 2))
            n = (n + 1) % (2 + k)
    return out


def composite(c, what, g, nrandom):
    judge(c, 'CidFontTrace', g, observe(fonts.observe_composite, g), what, [])
    c.notes['generated_composite_fonts_replayed'] = len(g)
    cases = []
    for _ in range(nrandom):
        f, strs = fonts.random_composite(c.rng, what)
        cases.append(case(c, f, strs, c.rng.random() < .85))
        if f['cm']['entries'] and f['cm']['entries'][0]['k'] == 'use':
            cases.append(after(cases[-1]))
    recs = judge(c, 'CidFontTrace', cases, observe(fonts.observe_composite, cases), what, COMPOSITE)
    c.sample({k: recs[1][k] for k in ('f', 'strs', 'os', 'exc')})
    mut = []
    for x in recs:
        if x['exc'] == 'none' and x['os'] and len(mut) < 200:
            m = copy.deepcopy(x)
            o = c.rng.choice(m['os'])
            if what == 'text':
                if not o['t']:
                    continue
                o['t'][0] += 1
            elif x['f']['cm']['wmode']:
                o['y1'] += 7
            else:
                o['x1'] += 7
            mut.append(m)
    if not c.violations and mut:
        ok = sum(v['clause'] == '' for v in verdicts(c, 'CidFontTrace', mut))
        if ok > len(mut) // 10:
            raise vlib.MachineryError('corrupted traces accepted: %d of %d' % (ok, len(mut)))
        c.notes['corrupted_composite_traces_rejected'] = len(mut) - ok
