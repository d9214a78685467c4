"""The command line and convert_file do what their options say (Cli.tla)."""
import copy
import json

import cli
from vlib import MachineryError, run_real, validate


def judge(c, cases, obs, selftest=False):
    recs = []
    for case, o in zip(cases, obs):
        if 'error' in o and 'got' not in o:
            c.violation('does not finish', case, o)
            o = None
        recs.append(o)
    live = [(case, o) for case, o in zip(cases, recs) if o]
    v = validate(c, 'CliTrace', [{'req': k['req'], 'doc': k['doc'], 'got': o['got'], 'left': o['left'], 'input': o['input']} for k, o in live])
    for (case, o), r in zip(live, v):
        if r['clause']:
            c.violation(r['clause'], case, o)
    if selftest and live and not c.violations:
        spoilt = []
        for k, o in live:
            g = copy.deepcopy(o)
            if not g['got']['ok']:
                continue
            n = len(spoilt) % 5
            if n == 0:
                g['got']['pages'] = g['got']['pages'][1:]
            elif n == 1:
                g['got']['type'] = 'html' if g['got']['type'] != 'html' else 'xml'
            elif n == 2:
                g['got']['where'] = 'nowhere'
            elif n == 3:
                g['left'] = False
            else:
                g['input'] = False
            spoilt.append({'req': k['req'], 'doc': k['doc'], 'got': g['got'], 'left': g['left'], 'input': g['input']})
        spoilt = spoilt[:100]
        bad = [i for i, r in enumerate(validate(c, 'CliTrace', spoilt)) if not r['clause'] and
               not (not spoilt[i]['req']['api'] and spoilt[i]['req']['t'] and spoilt[i]['req']['o'] not in ('', '-'))]
        if bad or len(spoilt) < 20:
            raise MachineryError('CliTrace accepts corrupted records: %s' % [spoilt[i] for i in bad[:2]])


def run(c):
    conf = {'most': c.n(2, 3), 'pages': c.n([1, 3], [1, 2, 3, 4]), 'types': ['text', 'html', 'xml', 'json', 'yaml', 'yml', 'tag', 'pdf'],
            'outputs': ['-', '.html', '.htm', '.xml', '.json', '.yaml', '.yml', '.txt', '.text'], 'selections': [[1], [2, 3], [3, 1], [9]],
            'limits': [1, 2], 'codecs': ['latin-1'], 'names': len(cli.NAMES) - 1}
    cfg = 'SPECIFICATION GenSpec\nINVARIANT Sound\nINVARIANT Emitted\nPROPERTY GenEnds\nCHECK_DEADLOCK FALSE\n'
    r = c.tlc('CliGen', cfg, files={'conf.json': json.dumps(conf)}, env={'CONF': 'conf.json'}, timeout=800, coverage=True)
    c.fired('CliGen', {k: v[1] for k, v in r.actions.items()},
            ['GiveType', 'GiveOutput', 'GivePages', 'GiveLimit', 'GivePassword', 'GiveDebug', 'GiveNoCaching', 'GiveCodec', 'GiveFiles', 'GiveName', 'Go', 'Run'])
    seen, cases = {}, []
    for x in r.records:
        k = json.dumps([x['req'], x['doc']])
        if k not in seen:
            seen[k] = x
            cases.append({'req': x['req'], 'doc': x['doc'], 'seed': c.rng.randrange(1 << 30), 'process': False, 'want': x['want'], 'untouched': x['untouched'], 'why': x['why']})
    limit = c.n(2500, 40000)
    if len(cases) > limit:
        cases = c.rng.sample(cases, limit)
    # some in a process of their own
    for k in c.rng.sample(cases, c.n(30, 200)):
        k['process'] = True
    obs = run_real(cli.observe, cases, timeout=60)
    c.traces += len(cases)
    for k, o in zip(cases, obs):
        if 'got' not in o:
            c.violation('does not finish', k, o)
        elif not o['input']:
            c.violation('the input file is changed', k, o)
        elif o['got']['ok'] != k['want']['ok']:
            c.violation('fails' if k['want']['ok'] else 'is not refused: ' + k['why'], k, o)
        elif k['untouched'] and not o['left']:
            c.violation('refused but files are left', k, o)
        elif k['want']['ok']:
            for f in ('where', 'type', 'pages'):
                if o['got'][f] != k['want'][f]:
                    c.violation(f, k, o['got'], k['want'])
                    break
            else:
                if not o['left']:
                    c.violation('other files are left', k, o)
    c.sample({'request': cases[0]['req'], 'document': cases[0]['doc'], 'expected': cases[0]['want']})
    runs = [cli.random_case(c.rng) for _ in range(c.n(700, 12000))]
    obs = run_real(cli.observe, runs, timeout=60)
    judge(c, runs, obs, selftest=True)
    c.assumptions += ['an explicit output type that contradicts the name of the output is not judged on the command line', 'output files of failed conversions are not judged',
                      'image export (-O) is C22']
