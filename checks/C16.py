"""The XML and HTML writers (XmlText.tla) and conversions to XML and HTML (Convert.tla)."""
import copy, json
import xml.etree.ElementTree as ET
import vlib, writers, conv_check

ACTS = ['OpenElm', 'OpenStyled', 'Single', 'Text', 'Close1']
CFG = 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\n'


def tlc(c, recs, selftest=False):
    out = []
    for base in range(0, len(recs), 3000):
        part = recs[base:base + 3000]
        r = (vlib.run_tlc if selftest else c.tlc)('XmlTextTrace', CFG, files={'cases.json': json.dumps(part)}, env={'CASES': 'cases.json'}, coverage=True)
        if not selftest and base == 0:
            c.fired('XmlTextTrace', {k: v[1] for k, v in r.actions.items()}, ['Meaning', 'Turn', 'Reading'])
        v = {x['id']: x['clause'] for x in r.records}
        if len(v) != len(part):
            raise vlib.MachineryError('no verdict')
        out += [v[i + 1] for i in range(len(part))]
    return out


def generated(c, n, limit):
    s = writers.codes
    conf = {'n': n, 'tag': s('a-b'), 'vals': [s(x) for x in ('', '"<&\'>', '\n\r\x01\U0001f600')], 'texts': [s(x) for x in (' x', '&<>\xe9')]}
    r = c.tlc('XmlTextGen', 'INIT GenInit\nNEXT GenNext\nINVARIANT ReadBack\nINVARIANT EventsBalanced\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n',
              files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('XmlTextGen', {k: v[1] for k, v in r.actions.items()}, ACTS)
    recs = sorted(r.records, key=lambda x: json.dumps(x))
    if len(recs) > limit:
        recs = c.rng.sample(recs, limit)
    return [{'fmt': x['fmt'], 'cs': writers.xml_calls(x['cs']), 'codec': c.rng.choice(['utf-8', 'ascii'])} for x in recs]


def judge(c, cases):
    obs = vlib.run_real(writers.observe_markup, cases)
    recs = [{'fmt': k['fmt'], 'codec': writers.codes(k['codec']), 'cs': writers.spec_xml(k['cs']), 'text': o.get('text', []), 'exc': o['exc']} for k, o in zip(cases, obs)]
    for k, x, r in zip(cases, tlc(c, recs), recs):
        t = ''.join(map(chr, r['text']))
        if x:
            c.violation('%s writer: %s' % (k['fmt'], x), k, t)
        elif k['fmt'] == 'xml':
            # the reader of the specification against another one
            try:
                ET.fromstring(t.encode(k['codec']))
            except ET.ParseError as e:
                raise vlib.MachineryError('accepted, but %s: %r' % (e, t[:300]))
    c.traces += len(recs)
    return recs


def run(c):
    gen = judge(c, generated(c, 3, c.n(3000, 30000)))
    c.notes['generated_behaviours_replayed'] = len(gen)
    cases = []
    for _ in range(c.n(2500, 25000)):
        fmt = c.rng.choice(['xml', 'html'])
        cases.append({'fmt': fmt, 'cs': writers.random_xml_calls(c.rng, fmt, c.rng.choice([1, 2, 4, 8, 14])),
                      'codec': c.rng.choice(['utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252'])})
    recs = judge(c, cases)
    c.sample({'calls': recs[3]['cs'][:4], 'text': ''.join(map(chr, recs[3]['text']))[:200]})
    mut = []
    for x in recs:
        if len(mut) == 150:
            break
        m = copy.deepcopy(x)
        i = c.rng.randrange(len(m['text']) + 1) - 1
        if i < 60 or m['text'][i] in (9, 10, 13, 32):
            continue
        m['text'][i] = 35 if m['text'][i] != 35 else 120
        mut.append(m)
    bad = [m for m, x in zip(mut, tlc(c, mut, True)) if x == '']
    if bad:
        raise vlib.MachineryError('corrupted texts were accepted: %d' % len(bad))
    c.notes['corrupted_traces_rejected'] = len(mut)
    conv_check.random_runs(c, ['xml', 'html'], c.n(110, 1500), 8)
    c.assumptions += ['texts given to the writers are escaped by the caller and hold only characters of the format; element and attribute names are names']
