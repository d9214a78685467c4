"""Exported images (ImageFile.tla)."""
import copy, json
import vlib, images

ACTS = ['Named', 'Whole', 'Converted', 'Open', 'Row', 'Closed']


def verdicts(c, recs, acts=ACTS, selftest=False):
    r = (vlib.run_tlc if selftest else c.tlc)('ImageFileTrace', 'INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceVerdict\nCHECK_DEADLOCK FALSE\n',
                                              files={'cases.json': json.dumps(recs)}, env={'CASES': 'cases.json'}, coverage=True)
    if not selftest:
        c.fired('ImageFileTrace', {k: v[1] for k, v in r.actions.items()}, acts)
    v = {x['id']: x['clause'] for x in r.records}
    if len(v) != len(recs):
        raise vlib.MachineryError('no verdict')
    return [v[i + 1] for i in range(len(recs))]


def judge(c, cases, acts, what):
    recs, src = [], []
    for k, o in zip(cases, vlib.run_real(images.observe, cases)):
        for i, x in enumerate(k['ims']):
            y = o['os'][i] if 'os' in o else {'exc': o['exc'], 'name': {'form': '', 'b': 0, 'w': 0, 'h': 0, 'own': False}, 'f': [], 'conv': []}
            recs.append(dict(y, im=x['im']))
            src.append(k)
    for base in range(0, len(recs), 3000):
        for i, x in enumerate(verdicts(c, recs[base:base + 3000], acts)):
            if x:
                c.violation(x, {'what': what, 'im': recs[base + i]['im'], 'pdf': repr(images.document(src[base + i]))}, {k: v for k, v in recs[base + i].items() if k != 'im'})
    c.traces += len(recs)
    return recs


def run(c):
    r = c.tlc('ImageFileGen', 'INIT GenInit\nNEXT GenNext\nINVARIANT Readable\nINVARIANT Padded\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n',
              files={'conf.json': json.dumps({'w': c.n(9, 33), 'h': c.n(2, 3), 'fills': c.n(1, 2)})}, env={'CONF': 'conf.json'}, coverage=True)
    c.fired('ImageFileGen', {k: v[1] for k, v in r.actions.items()}, ['Write', 'Open', 'Row'])
    ims = sorted(r.records, key=json.dumps)
    cases = []
    while ims:
        part, ims = ims[:3], ims[3:]
        cases.append({'ims': [images.placed(c.rng, im) for im in part], 'pages': 1, 'secret': False, 'shuffle': False, 'caching': True, 'seed': c.rng.randrange(1 << 30)})
    judge(c, cases, ['Named', 'Open', 'Row', 'Closed'], 'enumerated')
    c.notes['generated_images_replayed'] = len(r.records)
    recs = judge(c, [images.random_case(c.rng) for _ in range(c.n(700, 8000))], ACTS, 'random')
    c.sample({'image': {k: v for k, v in recs[0]['im'].items() if k != 'data'}, 'file': recs[0]['name'], 'bytes': len(recs[0]['f'])})
    mut = []
    for x in recs:
        im = x['im']
        if x['exc'] != 'none' or x['conv'] or not x['f'] or len(mut) == 150:
            continue
        m = copy.deepcopy(x)
        f = c.rng.choice(['file', 'size', 'name'])
        if f == 'name':
            m['name']['own'] = False
        elif f == 'size':
            m['f'].pop()
        elif x['name']['form'] == 'bmp':
            # width, height, depth, offset, or a sample that is not padding
            size = len(m['f'])
            rowlen = (im['w'] * (1 if im['bits'] == 1 else 8 * im['n']) + 31) // 32 * 4
            m['f'][c.rng.choice([18, 22, 28, 10, size - rowlen])] ^= 128
            if len(im['data']) < (im['w'] * im['n'] * im['bits'] + 7) // 8 * im['h']:
                continue
        else:
            m['f'][c.rng.randrange(len(m['f']))] ^= 1
        mut.append(m)
    if not c.violations:
        bad = [m for m, v in zip(mut, verdicts(c, mut, ACTS, True)) if v == '']
        if bad:
            raise vlib.MachineryError('%d corrupted traces were accepted' % len(bad))
        c.notes['corrupted_files_rejected'] = len(mut)
    c.assumptions += ['Decode arrays, masks and palettes of the image do not change the samples exported',
                      'of CMYK JPEG images, which are converted, only the size and the number of colours are judged; samples missing from the data are not judged']
