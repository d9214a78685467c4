"""Documents of several pages and histories of iterators over them (for IterHist.tla)."""
import copy, json, random
import interp
from pdfgen import PDF, Name, Ref, Stream, flate
from interp import op

BAD = [[op('Tf', [12000], 'NoSuchFont')], [op('Do', n='NoSuchObject')], [op('CS', n='NoSuchSpace')], [op('BT'), op('BT')],
       [op('Tj', s=[{'k': 's', 'v': 0, 'b': [65]}])]]


def build(doc, seed):
    """doc = {pages: [...], end: '' | 'cycle'}; seed fixes the spelling"""
    r = random.Random(seed)
    pdf = PDF()
    tree = pdf.reserve()
    memo = {}
    kids = []
    for page in doc['pages']:
        content = interp.split_prog(page['prog'], r)
        parts = content if isinstance(content, list) else [content]
        refs = [pdf.add(flate(p) if r.random() < .3 else Stream(p)) for p in parts]
        key = ('res', id(page['res']))
        if key not in memo:
            memo[key] = (pdf.add(interp.res_dict(pdf, page['res'], r, memo)), page['res'])
        d = {'Type': Name('Page'), 'Parent': tree, 'MediaBox': [v / 1000 for v in page['mb']],
             'Contents': refs if isinstance(content, list) else refs[0], 'Resources': memo[key][0]}
        if page['rot']:
            d['Rotate'] = page['rot']
        kids.append(pdf.add(d))
    if doc['end'] == 'cycle':
        kids.append(tree)
    pdf.add({'Type': Name('Pages'), 'Kids': kids, 'Count': len(kids)}, tree)
    pdf.root = pdf.add({'Type': Name('Catalog'), 'Pages': tree})
    return pdf.build(r)


def random_doc(rng, npages=None):
    pages = []
    shared = None
    for i in range(npages if npages is not None else rng.choice([1, 2, 2, 3, 4])):
        g = interp.Gen(rng, {'mb': False, 'depth': 1})
        g.fontn = 10 * i
        p = g.page(rng.randint(1, 5))
        if shared is not None and rng.random() < .6:
            # the same resources on several pages: fonts and forms are shared
            g.fontset = False
            p = dict(p, res=shared, prog=g.program(shared, rng.randint(1, 5)))
        else:
            shared = p['res']
        if rng.random() < .3:
            # left over at the end of the page
            p['prog'] = p['prog'] + rng.choice([[op('q'), op('cm', [2, 0, 0, 2, 0, 0])], [op('Q'), op('Q')], [op('rg', [1000, 0, 0])],
                                                [op('BT'), op('Tf', [9000], sorted(p['res']['fonts'])[0]), op('Tc', [3000])],
                                                [op('m', [1000, 1000]), op('l', [2000, 5000])]])
        if rng.random() < .2:
            at = rng.randrange(len(p['prog']) + 1)
            p['prog'] = p['prog'][:at] + rng.choice(BAD) + p['prog'][at:]
        pages.append(p)
    return {'pages': pages, 'end': 'cycle' if rng.random() < .15 else ''}


def digest(it):
    return json.dumps(interp.obs_item(it), sort_keys=True)


class Ids:
    def __init__(self):
        self.d = {}

    def __call__(self, s):
        return self.d.setdefault(s, len(self.d) + 1)


def execute(case):
    """Fresh readings of every page (each by an interpreter of its own), then the history."""
    from pdfmajor.interpreter import PDFInterpreter
    ids = Ids()
    datas = [build(d, s) for d, s in case['docs']]

    def go(paths):
        files = []
        for path in paths:
            pages, err = [], ''
            try:
                n = sum(1 for _ in PDFInterpreter(path))
            except Exception as e:
                err = type(e).__name__
                n = 99
            for i in range(n):
                items, perr = [], ''
                try:
                    ps = list(PDFInterpreter(path, pagenos=[i], maxpages=1))
                except Exception:
                    break
                try:
                    for it in ps[0]:
                        items.append(ids(digest(it)))
                except Exception as e:
                    perr = type(e).__name__
                pages.append({'items': items, 'err': perr, 'id': ps[0].page.pageid})
            files.append({'pages': pages, 'err': err})
        docs, its, hold, given, ops = [], [], [], [], []
        rng = random.Random(case['seed'])

        def run(o, a, b=0):
            if o == 'open':
                kw = dict(case.get('kw', {}))
                try:
                    docs.append((a, PDFInterpreter(paths[a - 1], preload=bool(b), **kw)))
                    return 'opened', 0, 0
                except Exception as e:
                    return 'error:' + type(e).__name__, 0, 0
            if o == 'pass':
                its.append(['doc', docs[a - 1][0], iter(docs[a - 1][1]), 'live'])
                return 'started', 0, 0
            if o == 'read':
                f, pg, n = hold[a - 1]
                its.append(['page', f, iter(pg), 'live', n])
                return 'started', 0, 0
            if o == 'drop':
                its[a - 1][3] = 'gone'
                if case['seed'][0] in '02468':
                    its[a - 1][2].close()
                its[a - 1][2] = None
                return 'abandoned', 0, 0
            it = its[a - 1]
            try:
                x = next(it[2])
            except StopIteration:
                it[3] = 'over'
                return 'end', 0, 0
            except Exception as e:
                it[3] = 'over'
                return 'error:' + type(e).__name__, 0, 0
            if it[0] == 'doc':
                known = [p['id'] for p in files[it[1] - 1]['pages']]
                n = known.index(x.page.pageid) + 1 if x.page.pageid in known else -1
                if x.page_num != n - 1:
                    n = -2
                hold.append((it[1], x, n))
                return 'page', n, 0
            dg = digest(x)
            given.append((x, dg))
            return 'item', it[4], ids(dg)

        def step(o, a, b=0):
            k, p, v = run(o, a, b)
            ops.append({'o': o, 'a': a, 'b': b, 'r': {'k': k, 'p': p, 'v': v}})
        if case.get('ops') is not None:
            for x in case['ops']:
                step(x['o'], x['a'], x['b'])
        else:
            step('open', rng.randrange(len(paths)) + 1, int(rng.random() < .2))
            for _ in range(case['len']):
                live = [i + 1 for i, x in enumerate(its) if x[3] == 'live']
                w = rng.random()
                if w < .02 and len(docs) < 3:
                    step('open', rng.randrange(len(paths)) + 1, int(rng.random() < .3))
                elif docs and (w < .12 or not its):
                    step('pass', rng.randrange(len(docs)) + 1)
                elif w < .30 and hold:
                    step('read', rng.randrange(len(hold)) + 1)
                elif w < .33 and live:
                    step('drop', rng.choice(live))
                elif w < .35 and any(x[3] == 'over' for x in its):
                    step('next', rng.choice([i + 1 for i, x in enumerate(its) if x[3] == 'over']))
                elif live:
                    # now and then run one to its end
                    j = rng.choice(live)
                    step('next', j)
                    while rng.random() < .3 and its[j - 1][3] == 'live':
                        step('next', j)
        late = all(digest(x) == dg for x, dg in given)
        return {'files': [{'pages': [{'items': p['items'], 'err': p['err']} for p in f['pages']], 'err': f['err']} for f in files],
                'ops': ops, 'late': late}

    def nest(i, paths):
        if i == len(datas):
            return go(paths)
        return interp.run_bytes(datas[i], lambda p: nest(i + 1, paths + [p]))
    return nest(0, [])
