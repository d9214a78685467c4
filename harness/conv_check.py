"""Conversions of documents, judged by Convert.tla."""
import copy, json
import vlib, convdocs

WORDS = ['FontFile', 'FontName', 'Type', 'size', 'x0', 'x1', 'y0', 'y1', 'text', 'color', '========== [ page ', ' ] ==========']
ACTS = ['Page', 'Text', 'Block', 'Char', 'Form', 'Image', 'Shape']


def ascii_file():
    return json.dumps({w: convdocs.codes(w) for w in WORDS})


def judge(c, recs, selftest=False):
    out = []
    for base in range(0, len(recs), 1500):
        part = recs[base:base + 1500]
        r = (vlib.run_tlc if selftest else c.tlc)('ConvertTrace', 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\n',
            files={'cases.json': json.dumps(part), 'ascii.json': ascii_file()}, env={'CASES': 'cases.json', 'ASCII': 'ascii.json'}, coverage=True)
        if not selftest and base == 0:
            c.fired('ConvertTrace', {k: v[1] for k, v in r.actions.items()}, ACTS)
        v = {x['id']: x['clause'] for x in r.records}
        if len(v) != len(part):
            raise vlib.MachineryError('no verdict on a conversion')
        out += [v[i + 1] for i in range(len(part))]
    return out



def observe_case(case):
    """one text result (the harness runs cases in workers)"""
    return {'obs': convdocs.observe(case)}


def skeleton(x):
    """document of a generated structure"""
    pages, st = [], []
    for n in x['doc']:
        if n['k'] == 'page':
            pages.append([])
            st = [pages[-1]]
        elif n['k'] == 'end':
            st.pop()
        elif n['k'] == 'form':
            st[-1].append([])
            st.append(st[-1][-1])
        else:
            st[-1].append(n['k'])
    return pages


def generated(c, fmts, n, limit):
    r = c.tlc('ConvertGen', 'INIT GenInit\nNEXT GenNext\nINVARIANT Emitted\nINVARIANT Nested\nCHECK_DEADLOCK FALSE\n',
              files={'conf.json': json.dumps({'n': n})}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('ConvertGen', {k: v[1] for k, v in r.actions.items()}, ['NewPage', 'Item', 'OpenForm', 'CloseForm', 'Choose1'])
    recs = sorted(r.records, key=lambda x: json.dumps(x))
    if len(recs) > limit:
        recs = c.rng.sample(recs, limit)
    cases = [{'docs': [{'seed': c.rng.randrange(1 << 30), 'pages': skeleton(x)}], 'seed': 1,
              'plan': [[0, c.rng.choice(fmts), dict({'ignore_bad_chars': True}, **({'pagenos': x['nos']} if x['nos'] else {}), **({'maxpages': x['max']} if x['max'] else {})),
                        'utf-8', 0]]} for x in recs]
    obs = vlib.run_real(observe_case, cases)
    todo = []
    for x, k, o in zip(recs, cases, obs):
        if 'obs' not in o:
            c.violation('conversion: ' + o['exc'], k, o)
            continue
        o = o['obs'][0]
        if x['sel'] == 0:
            if o['exc'] != 'EmptyDocumentError':
                c.violation('no page asked for, but no EmptyDocumentError', k, o['exc'])
            continue
        got = [[n['k'], n['d']] for n in o['src'] if n['k'] not in ('block', 'char')]
        if o['sexc'] == 'none' and got != x['want']:
            c.violation('structure of the pages', k, got, x['want'])
        todo.append((k, o))
    for (k, o), clause in zip(todo, judge(c, [o for _, o in todo])):
        if clause:
            c.violation('%s: %s' % (o['fmt'], clause), k, strip(o))
    c.traces += len(cases)
    c.notes['generated_documents'] = len(cases)


def strip(o):
    return {k: (v if k not in ('src', 'nodes', 'text') else '%d entries' % len(v)) for k, v in o.items()}


def random_runs(c, fmts, n, per, selftest=True):
    cases = [convdocs.random_case(c.rng, fmts, per) for _ in range(n)]
    todo = []
    for k, o in zip(cases, vlib.run_real(observe_case, cases, timeout=60)):
        if 'obs' not in o:
            c.violation('conversion: ' + o['exc'], k, o)
            continue
        todo += [(k, i, x) for i, x in enumerate(o['obs'])]
    for (k, i, o), clause in zip(todo, judge(c, [o for _, _, o in todo])):
        if clause:
            k = dict(k, failing=k['plan'][i])
            c.violation('%s: %s' % (o['fmt'], clause), k, strip(o))
    c.traces += len(todo)
    c.notes['random_conversions'] = len(todo)
    if todo:
        c.sample({'format': todo[0][2]['fmt'], 'kinds': [x['k'] for x in todo[0][2]['src']][:30], 'exception': todo[0][2]['exc']})
    if selftest and not c.violations:
        mut = []
        for _, _, o in todo:
            if o['exc'] != 'none' or len(mut) == 150 or not o['src']:
                continue
            m = copy.deepcopy(o)
            if m['fmt'] == 'text':
                i = c.rng.randrange(len(m['text']))
                m['text'][i] = 120 if m['text'][i] != 120 else 121
            else:
                i = c.rng.randrange(len(m['nodes']))
                k = c.rng.randrange(4)
                x = m['nodes'][i]
                if k == 0:
                    del m['nodes'][i]
                elif k == 1:
                    m['nodes'].insert(i, copy.deepcopy(x))
                elif k == 2:
                    x['d'] += 1
                elif x['box']:
                    x['box'][0] = '0.125'
                elif x['wh']:
                    x['wh'][0] = '0.125'
                else:
                    continue
            mut.append(m)
        bad = [m for m, x in zip(mut, judge(c, mut, True)) if x == '']
        if bad:
            raise vlib.MachineryError('corrupted conversions were accepted: %d of %d' % (len(bad), len(mut)))
        c.notes['corrupted_conversions_rejected'] = len(mut)
