"""Documents with a given page tree, and the pages the interpreter delivers (for PageTree.tla)."""
import random
import interp
from pdfgen import PDF, Name, Ref, Stream, Raw, flate

NOROT = 99999


def box(i):
    return [i, i + 1, i + 100, i + 200]


def build(d, seed):
    r = random.Random(seed)
    pdf = PDF()
    # without a page in the tree only /Type tells the page objects
    loose = d['root'] == 0 or not any(n['kids'] for n in d['nodes'])
    refs = [pdf.reserve() for _ in d['nodes']]

    def ind(v):
        return pdf.add(v) if r.random() < .3 else v

    def boxval(i):
        if i < 0:
            # a damaged box
            return r.choice([None, Ref(9999), [], [0, 0, 9], [0, 0, 9, Name('x')], 7, [0, 0, 9, 9, 9], pdf.add({}), [None] * 4])
        b = [float(x) if r.random() < .2 else x for x in box(i)]
        if r.random() < .2:
            b = [b[2], b[1], b[0], b[3]]
        if r.random() < .2:
            b = [b[0], b[3], b[2], b[1]]
        return ind([pdf.add(x) if r.random() < .1 else x for x in b])
    for i, n in reversed(list(enumerate(d['nodes'], 1))):
        o = {}
        if n['k'] != 'other':
            key = 'Type' if r.random() < .9 or loose else 'type'
            o[key] = Name('Pages' if n['k'] == 'pages' else 'Page')
            if r.random() < .1 and key == 'Type':
                o[key] = pdf.add(o[key])
        elif r.random() < .7:
            o['Type'] = Name(r.choice(['Template', 'Font', 'Catalog']))
        if n['k'] == 'pages':
            o['Kids'] = ind([refs[k - 1] for k in n['kids']])
            o['Count'] = r.choice([1, len(n['kids']), 7])
        else:
            c = b'%d 0 5 5 re f' % i
            cs = pdf.add(flate(c) if r.random() < .3 else Stream(c))
            o['Contents'] = r.choice([cs, [cs], [cs, pdf.add(Stream(b' '))]])
            o['Vid'] = i
        if n['mb']:
            o['MediaBox'] = boxval(n['mb'])
        if n['cb']:
            o['CropBox'] = boxval(n['cb'])
        if n['rot'] != NOROT:
            o['Rotate'] = ind(n['rot'])
        if n['res']:
            o['Resources'] = ind({'Id': n['res'], 'ProcSet': [Name('PDF')]})
        items = list(o.items())
        r.shuffle(items)
        if not loose and n['k'] != 'other' and not d.get('cyclic') and r.random() < .05:
            # not an indirect object
            refs[i - 1] = dict(items)
        else:
            pdf.add(dict(items), refs[i - 1])
    root = {'Type': Name('Catalog')}
    if d['root']:
        root['Pages'] = refs[d['root'] - 1]
    pdf.root = pdf.add(root)
    return pdf.build(r)


def unbox(b):
    if b == [0, 0, 612, 792]:
        return 0
    try:
        return int(b[0]) if [float(x) for x in b] == [float(x) for x in box(int(b[0]))] else -1
    except Exception:
        return -1


def observe(case):
    from pdfmajor.interpreter import PDFInterpreter
    pdf = build(case['d'], case['seed'])

    def go(path):
        runs = []
        for sel, lim in case['runs']:
            obs, exc = [], 'none'
            try:
                for p in PDFInterpreter(path, pagenos=sel, maxpages=lim, **case.get('kw', {})):
                    its = list(p)
                    a = p.page
                    # the one rectangle shows which page this is, whatever the page space
                    (x,) = [round(it.x0, 3) if a.rotate in (0,) else None for it in its] if len(its) == 1 else (None,)
                    mb = unbox(a.mediabox)
                    n = a.attrs.get('Vid', -1)
                    n = n if x is None or x == n - mb else -1
                    obs.append({'n': n if len(its) == 1 else -2, 'pn': p.page_num, 'mb': mb, 'cb': unbox(a.cropbox), 'rot': a.rotate,
                                'res': a.resources.get('Id', -1) if isinstance(a.resources, dict) else -2,
                                'size': mb if (p.width, p.height) == ((100, 199) if mb else (612, 792)) else -1})
            except Exception as e:
                exc = type(e).__name__
            runs.append({'obs': obs, 'exc': exc})
        return {'runs': runs}
    return interp.run_bytes(pdf, go)


def random_doc(rng):
    n = rng.choice([2, 3, 5, 8, 12, 20, 30])
    parents = [0, 0] + [0] * (n - 1)
    deep = rng.random()
    nodes = [None]
    inner = [1]
    for i in range(1, n + 1):
        nodes.append({'k': 'pages', 'kids': [], 'mb': 0, 'cb': 0, 'rot': NOROT, 'res': 0})
        if i > 1:
            p = inner[-1] if rng.random() < deep else rng.choice(inner)
            nodes[p]['kids'].insert(rng.randrange(len(nodes[p]['kids']) + 1), i)
            k = rng.choices(['pages', 'page', 'other'], [4, 6, 1])[0]
            nodes[i]['k'] = k
            if k == 'pages':
                inner.append(i)
        a = nodes[i]
        if i == 1 or rng.random() < .3:
            a['mb'] = rng.randrange(1, 400)
        if rng.random() < .2:
            a['cb'] = rng.randrange(1, 400)
        if rng.random() < .3:
            a['rot'] = rng.choice([0, 90, 180, 270, 360, 450, -90, -180, -450, 720])
        if i == 1 or rng.random() < .3:
            a['res'] = rng.randrange(1, 400)
    root = 1
    if rng.random() < .1:
        # no usable box anywhere
        for a in nodes[1:]:
            a['mb'] = rng.choice([0, 0, -1])
    if rng.random() < .1:
        for a in nodes[1:]:
            a['cb'] = rng.choice([0, 0, -1])
    if rng.random() < .08:
        # no usable tree: page objects only
        for a in nodes[1:]:
            if a['k'] == 'pages':
                a['kids'] = []
            a['mb'] = a['mb'] or rng.randrange(1, 400)
        root = rng.choice([0, 1])
    d = {'root': root, 'nodes': nodes[1:]}
    if root and rng.random() < .15 and len(nodes[1]['kids']):
        # some nodes are their own descendants
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.choice([k for k in inner if nodes[k]['kids']])
            up, seen = [i], {i}
            while up[-1] != 1:
                up.append(next(k for k in inner if up[-1] in nodes[k]['kids'] and k < up[-1]))
            nodes[i]['kids'].insert(rng.randrange(len(nodes[i]['kids']) + 1), rng.choice(up))
        d['cyclic'] = 1
    return d


def random_run(rng, n):
    sel = rng.choice([None, None, [], [rng.randrange(n + 2)], [rng.randrange(n + 2) for _ in range(rng.randrange(1, 6))]])
    return sel, rng.choice([0, 0, 1, 2, rng.randrange(1, n + 3)])
