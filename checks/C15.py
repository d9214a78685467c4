"""The JSON writer (Calls.tla, JsonText.tla) and JSON conversion (Convert.tla)."""
import copy, json
import vlib, writers, conv_check

ACTS = ['PutObject', 'PutArray', 'PutString', 'PutNumber', 'PutWord', 'Close1']


def generated(c, n):
    s = writers.codes
    conf = {'n': n, 'keys': [s('a'), s('b"\n'), s('\u00e9')],
            'vals': [{'op': 'str', 'val': s(x)} for x in ('', '"\\', '\n\x01\U0001f600\x7f')] +
                    [{'op': 'num', 'val': v} for v in ([0, 0], [1, -1] + s('25'), [0, 3] + s('12'))] + [{'op': 'lit', 'val': s('null')}]}
    r = c.tlc('JsonTextGen', 'INIT GenInit\nNEXT GenNext\nINVARIANT ReadBack\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n',
              files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('JsonTextGen', {k: v[1] for k, v in r.actions.items()}, ACTS)
    recs = sorted(r.records, key=lambda x: json.dumps(x['cs']))
    if len(recs) > 25000:
        recs = c.rng.sample(recs, 25000)
    cases = [{'cs': writers.tree_calls(x['cs']), 'codec': c.rng.choice(['utf-8', 'utf-8', 'ascii', 'latin-1'])} for x in recs]
    for x, k, o in zip(recs, cases, vlib.run_real(writers.observe_json, cases)):
        try:
            got = writers.events(''.join(map(chr, o['text'])))
        except Exception as e:
            got = repr(e)
        if got != [[e['t'], e['v']] for e in x['ev']]:
            c.violation('enumerated calls written as JSON', k, o, x['ev'])
    c.traces += len(cases)
    c.notes['generated_behaviours_replayed'] = len(cases)


def tlc(c, recs, selftest=False):
    run = vlib.run_tlc if selftest else c.tlc
    r = run('JsonTextTrace', 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\n',
            files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'}, coverage=True)
    if not selftest:
        c.fired('JsonTextTrace', {k: v[1] for k, v in r.actions.items()}, ['Meaning', 'Turn', 'Reading'])
    v = {x['id']: x['clause'] for x in r.records}
    if len(v) != len(recs):
        raise vlib.MachineryError('no verdict')
    return [v[i + 1] for i in range(len(recs))]


def run(c):
    generated(c, c.n(3, 4))
    cases = [{'cs': writers.random_calls(c.rng, c.rng.choice([0, 1, 2, 4, 8, 16])), 'codec': c.rng.choice(['utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252'])}
             for _ in range(c.n(3000, 30000))]
    recs = [{'cs': writers.spec_calls(k['cs']), 'text': o.get('text', []), 'exc': o['exc']} for k, o in zip(cases, vlib.run_real(writers.observe_json, cases))]
    for base in range(0, len(recs), 3000):
        for i, x in enumerate(tlc(c, recs[base:base + 3000])):
            if x:
                r = recs[base + i]
                c.violation(x, cases[base + i], ''.join(map(chr, r['text'])))
    c.traces += len(recs)
    c.sample({'calls': recs[3]['cs'][:6], 'text': ''.join(map(chr, recs[3]['text']))[:200]})
    mut = []
    for x in recs:
        if len(x['text']) < 20 or len(mut) == 150:
            continue
        m = copy.deepcopy(x)
        i = c.rng.randrange(len(m['text']))
        if m['text'][i] in (9, 10, 13, 32, 92, 117) or 48 <= m['text'][i] < 58 or 97 <= m['text'][i] < 103:
            continue
        m['text'][i] = 120 if m['text'][i] != 120 else 35
        mut.append(m)
    bad = [m for m, x in zip(mut, tlc(c, mut, True)) if x == '']
    if len(bad) > 3:
        raise vlib.MachineryError('corrupted texts were accepted: %d' % len(bad))
    c.notes['corrupted_traces_rejected'] = len(mut) - len(bad)
    conv_check.random_runs(c, ['json'], c.n(80, 1000), 6)
