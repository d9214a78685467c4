"""The YAML writer (Calls.tla, YamlText.tla) and conversions to YAML (Convert.tla)."""
import copy, json
import vlib, writers, conv_check

ACTS = ['PutObject', 'PutArray', 'PutString', 'PutNumber', 'PutWord', 'Close1']


def tlc(c, recs, selftest=False):
    out = []
    for base in range(0, len(recs), 3000):
        part = recs[base:base + 3000]
        r = (vlib.run_tlc if selftest else c.tlc)('YamlTextTrace', 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\n',
            files={'cases.json': json.dumps(part)}, env={'CASES': 'cases.json'})   # TLC's coverage cannot cope with the reader's operators
        v = {x['id']: x for x in r.records}
        if len(v) != len(part):
            raise vlib.MachineryError('no verdict')
        if not selftest and r.distinct < 3 * len(part):
            raise vlib.MachineryError('vacuous: texts not read')
        out += [v[i + 1] for i in range(len(part))]
    return out


def nested(cs):
    """an array in an array, which the writer has no call for"""
    st = []
    for x in cs:
        if x['op'] == 'end':
            if st:
                st.pop()
        elif x['op'] in ('obj', 'arr'):
            if x['op'] == 'arr' and st and st[-1] == 'arr':
                return True
            st.append(x['op'])
    return False


def generated(c, n, limit):
    s = writers.codes
    conf = {'n': n, 'keys': [s('a'), s('b": '), s('20')],
            'vals': [{'op': 'raw', 'val': s(x)} for x in ('', 'x: #', '\n\x01\U0001f600', '- null')] +
                    [{'op': 'num', 'val': v} for v in ([0, 0], [1, -1] + s('25'))] + [{'op': 'lit', 'val': s('null')}]}
    r = c.tlc('YamlTextGen', 'INIT GenInit\nNEXT GenNext\nINVARIANT ReadBack\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n',
              files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('YamlTextGen', {k: v[1] for k, v in r.actions.items()}, ACTS)
    recs = sorted((x for x in r.records if not nested(x['cs'])), key=lambda x: json.dumps(x['cs']))
    if len(recs) > limit:
        recs = c.rng.sample(recs, limit)
    return [({'cs': writers.tree_yaml(x['cs']), 'codec': c.rng.choice(['utf-8', 'utf-8', 'ascii'])}, x['cs']) for x in recs]


def judge(c, cases, specs):
    obs = vlib.run_real(writers.observe_yaml, cases)
    recs = [{'cs': s, 'text': o.get('text', []), 'exc': o['exc']} for s, o in zip(specs, obs)]
    for k, x, r in zip(cases, tlc(c, recs), recs):
        t = ''.join(map(chr, r['text']))
        if x['clause']:
            c.violation('writer: ' + x['clause'], k, t)
            continue
        # the reader of the specification against PyYAML
        try:
            other = writers.yaml_events(t)
        except Exception as e:
            raise vlib.MachineryError('accepted, but %r: %r' % (e, t[:300]))
        if other != [[e['t'], e['v']] for e in x['ev']]:
            raise vlib.MachineryError('read differently: %r' % t[:300])
    c.traces += len(recs)
    return recs


def run(c):
    g = generated(c, c.n(3, 4), c.n(3500, 60000))
    judge(c, [x for x, _ in g], [s for _, s in g])
    c.notes['generated_behaviours_replayed'] = len(g)
    cases = [{'cs': writers.random_yaml_calls(c.rng, c.rng.choice([0, 1, 2, 4, 8, 16])), 'codec': c.rng.choice(['utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252'])}
             for _ in range(c.n(1500, 25000))]
    recs = judge(c, cases, [writers.spec_yaml(k['cs']) for k in cases])
    c.sample({'calls': recs[3]['cs'][:6], 'text': ''.join(map(chr, recs[3]['text']))[:200]})
    mut = []
    for x in recs:
        if len(x['text']) < 20 or len(mut) == 150:
            continue
        m = copy.deepcopy(x)
        i = c.rng.randrange(len(m['text']))
        if m['text'][i] == 32 or m['text'][i] > 126:
            continue
        m['text'][i] = 120 if m['text'][i] != 120 else 122
        mut.append(m)
    bad = [m for m, x in zip(mut, tlc(c, mut, True)) if x['clause'] == '']
    if len(bad) > 3:
        raise vlib.MachineryError('corrupted texts were accepted: %d' % len(bad))
    c.notes['corrupted_traces_rejected'] = len(mut) - len(bad)
    conv_check.random_runs(c, ['yaml'], c.n(80, 1000), 6)
    c.assumptions += ['keys of up to 200 characters (YAML limits keys that are written in front of their colon)']
