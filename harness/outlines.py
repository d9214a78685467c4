"""Documents with outlines and named destinations, and what the real code finds in them (Outline.tla, NameTree.tla)."""
import random, re
from pdfgen import PDF, Name, Ref, Stream


# ------------------------------------------------------------ values with an identity
def value(r, pdf, n, form=None):
    """a destination that stands for the number n"""
    a = [Ref(1), Name('XYZ'), n, 0, None]
    form = form or r.choice(['array', 'array', 'name', 'string', 'dict', 'ref', 'refdict'])
    v = {'array': a, 'ref': a, 'name': Name('N%d' % n), 'string': b'S%d' % n, 'dict': {'D': a}, 'refdict': {'D': a}}[form]
    return pdf.add(v) if form in ('ref', 'refdict') else v


def ident(v):
    """the number of such a value as the code returned it, 0 for None, -1 for anything else"""
    from pdfmajor.parser.PDFStream import resolve1
    from pdfmajor.parser.PSStackParser import PSLiteral
    if v is None:
        return 0
    try:
        v = resolve1(v)
        if isinstance(v, PSLiteral):
            return int(v.name[1:]) if v.name[:1] in (b'N', 'N') else -1
        if isinstance(v, bytes):
            return int(v[1:]) if v[:1] == b'S' else -1
        if isinstance(v, dict):
            if 'S' in v:
                return int(v['D'][2]) if v['S'].name in (b'GoTo', 'GoTo') else int(v['URI'][3:])
            v = resolve1(v['D'])
        return int(v[2]) if len(v) == 5 else -1
    except Exception:
        return -1


# ------------------------------------------------------------ outlines
def outline_pdf(case):
    r = random.Random(case['seed'])
    pdf = PDF()
    pdf.add({'Type': Name('Page')}, pdf.reserve())
    d = case['d']
    refs = [pdf.reserve() for _ in d]
    par = {}
    for i, n in enumerate(d):
        o = {}
        if i == 0:
            o['Type'] = Name('Outlines')
        if n['titled']:
            o['Title'] = pdf.add(bytes(n['title'])) if r.random() < .1 else bytes(n['title'])
        if n['first']:
            o['First'] = refs[n['first'] - 1]
            if n['last']:
                o['Last'] = refs[n['first'] - 1]
        if n['next']:
            o['Next'] = refs[n['next'] - 1]
        if n['dest']:
            o['Dest'] = value(r, pdf, n['dest'])
        if n['act']:
            a = {'S': Name('GoTo'), 'D': value(r, pdf, n['act'], 'array')} if r.random() < .6 else {'S': Name('URI'), 'URI': b'x:/%d' % n['act']}
            o['A'] = pdf.add(a) if r.random() < .5 else a
        if n['se']:
            o['SE'] = pdf.add({'D': value(r, pdf, n['se'], 'array')})
        if r.random() < .2:
            o['Count'] = r.choice([-1, 0, 3])
        if r.random() < .2 and i:
            o['Prev'] = refs[r.randrange(len(d))]
            o['Parent'] = refs[r.randrange(len(d))]
        items = list(o.items())
        r.shuffle(items)
        pdf.add(dict(items), refs[i])
    loops = any(n[k] == 1 for n in d for k in ('first', 'next'))
    root = {'Type': Name('Catalog'), 'Outlines': refs[0] if loops or r.random() < .9 else pdf.objs.pop(refs[0].n)}
    pdf.root = pdf.add(root)
    return pdf.build(r)


def opened(data, caching):
    import io
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    return PDFDocument(PDFParser(io.BytesIO(data)), caching=caching)


def observe_outlines(case):
    obs, exc = [], 'none'
    try:
        doc = opened(outline_pdf(case), case['caching'])
        if case['twice']:
            it = doc.get_outlines()
            for _ in zip(range(3), it):
                pass
        for (level, title, dest, act, se) in doc.get_outlines():
            obs.append({'level': level, 'title': [ord(c) for c in title], 'dest': ident(dest), 'act': ident(act), 'se': ident(se)})
    except Exception as e:
        exc = type(e).__name__
    return {'obs': obs, 'exc': exc}


DEFINED = [b for b in range(256) if b not in (0x16, 0x7f, 0x9f, 0xad)]


def title(r):
    k = r.random()
    if k < .3:
        return list(b'T%d' % r.randrange(100))
    if k < .6:
        s = [r.choice(DEFINED) for _ in range(r.randrange(8))]
        return s if s[:2] != [254, 255] else s[1:]
    cs = ''.join(r.choice(['a', 'é', '\n', '(', '\\', chr(r.randrange(0x100, 0xd800)), chr(r.randrange(0xe000, 0xfffe)), chr(r.randrange(0x10000, 0x110000))]) for _ in range(r.randrange(6)))
    return [254, 255] + list(cs.encode('utf-16be'))


def node(r, i, first=0, next=0):
    act = r.choice(['dest', 'dest', 'act', 'both', 'none'])
    return {'first': first, 'next': next, 'last': bool(first), 'titled': i > 1 and r.random() < .95, 'title': title(r), 'dest': i if act in ('dest', 'both') else 0,
            'act': i + 1000 if act in ('act', 'both') else 0, 'se': i + 2000 if r.random() < .1 else 0}


def random_outline(r, n=None):
    n = n or r.choice([1, 2, 4, 8, 20, 40])
    d = [node(r, i + 1) for i in range(n)]
    d[0].update(titled=False, dest=0, act=0, se=0)
    last = {}
    shape = r.choice(['any', 'any', 'flat', 'deep'])
    for i in range(1, n):
        # entry i+1 is the last one below a parent so far
        p = {'any': r.randrange(i), 'flat': 0, 'deep': i - 1}[shape]
        if p in last:
            d[last[p]]['next'] = i + 1
        else:
            d[p].update(first=i + 1, last=r.random() > .02)
        last[p] = i
    if r.random() < .25:
        for _ in range(r.choice([1, 2, 5])):
            # pointers that lead elsewhere: back, to another branch, to itself
            x = d[r.randrange(n)]
            k = r.choice(['first', 'next'])
            x[k] = r.randrange(n + 1)
            if k == 'first':
                x['last'] = bool(x['first'])
    return d


# ------------------------------------------------------------ names
EMPTY = {'n0': 0, 'a0': [], 'd0': {}, 'false': False, 's0': b''}


def name_value(r, pdf, v):
    if v in EMPTY:
        return EMPTY[v]
    return value(r, pdf, int(v[1:]), {'a': 'array', 'd': 'dict', 'n': 'name', 's': 'string', 'r': 'ref', 'f': 'refdict'}[v[0]])


def named(v):
    """the value as the cases write it"""
    from pdfmajor.parser.PDFStream import PDFObjRef
    from pdfmajor.parser.PSStackParser import PSLiteral
    for k, e in EMPTY.items():
        if type(v) is type(e) and v == e:
            return k
    n = str(ident(v))
    if isinstance(v, PDFObjRef):
        w = v.resolve()
        return ('f' if isinstance(w, dict) else 'r') + n
    return {list: 'a', dict: 'd', bytes: 's', PSLiteral: 'n'}.get(type(v), '?%s ' % type(v).__name__) + n


def names_pdf(case):
    r = random.Random(case['seed'])
    pdf = PDF()
    pdf.add({'Type': Name('Page')}, pdf.reserve())
    t = case['t']
    refs = [pdf.reserve() for _ in t]

    def ind(v, p=.15):
        return pdf.add(v) if r.random() < p else v

    def make(i):
        n = t[i]
        o = {}
        if n['limits']:
            o['Limits'] = ind([ind(bytes(x), .1) for x in n['limits']])
        if n['names'] or not n['kids']:
            o['Names'] = ind([y for p in n['names'] for y in (ind(bytes(p['k']), .05), name_value(r, pdf, p['v']))])
        if n['kids']:
            o['Kids'] = ind([refs[j - 1] for j in n['kids']])
        items = list(o.items())
        r.shuffle(items)
        return dict(items)
    for i in range(len(t)):
        pdf.add(make(i), refs[i])
    root = {'Type': Name('Catalog')}
    if t:
        looped = any(1 in n['kids'] for n in t)
        tree = refs[0] if looped or r.random() < .7 else pdf.objs.pop(refs[0].n)
        names = {case.get('cat', 'Dests'): tree}
        if r.random() < .5:
            names['JavaScript'] = {'Names': [b'a', {'S': Name('JavaScript')}]}
        root['Names'] = ind(names, .5)
    elif r.random() < .5:
        root['Names'] = {'JavaScript': {'Names': [b'a', {'S': Name('JavaScript')}]}}
    if case['old'] or r.random() < .3:
        root['Dests'] = ind({bytes(p['k']).decode('latin-1'): name_value(r, pdf, p['v']) for p in case['old']}, .7)
    pdf.root = pdf.add(root)
    return pdf.build(r)


def observe_names(case):
    from pdfmajor.execptions import PDFDestinationNotFound
    r = random.Random(case['seed'])
    out = []
    try:
        doc = opened(names_pdf(case), case['caching'])
    except Exception as e:
        return {'qs': [{'tree': type(e).__name__, 'dest': type(e).__name__} for _ in case['ks']]}
    for k in case['ks']:
        key = bytes(k)
        if r.random() < .4:
            try:
                key = key.decode('utf-8')
            except UnicodeDecodeError:
                pass
        q = {}
        try:
            q['tree'] = named(doc.lookup_name('Dests', key))
        except KeyError:
            q['tree'] = 'missing'
        except Exception as e:
            q['tree'] = type(e).__name__
        try:
            q['dest'] = named(doc.get_dest(key))
        except PDFDestinationNotFound:
            q['dest'] = 'missing'
        except Exception as e:
            q['dest'] = type(e).__name__
        out.append(q)
    return {'qs': out}


def rname(r):
    k = r.random()
    if k < .5:
        return [r.choice(b'abc') for _ in range(r.randrange(1, 4))]
    if k < .8:
        return list(r.choice(['é', 'Kap. 1', 'x(y)', '#1', 'ÿ', '\u4e00']).encode('utf-8')) + [r.choice(b'01')]
    return [r.randrange(1, 256) for _ in range(r.randrange(1, 5))]


def rvalue(r, n):
    return r.choice(list(EMPTY)) if r.random() < .15 else r.choice('aaddnsrf') + str(n)


def random_names(r):
    ks = sorted({tuple(rname(r)) for _ in range(r.choice([0, 1, 3, 8, 20, 40]))})
    if r.random() < .1:
        ks = sorted(set(ks) | {()})
    pairs = [{'k': list(k), 'v': rvalue(r, i + 1)} for i, k in enumerate(ks)]
    t = []

    def grow(ps, depth, limits):
        i = len(t)
        t.append({'limits': [ps[0]['k'], ps[-1]['k']] if limits and ps else [], 'names': [], 'kids': []})
        if depth == 0 or len(ps) <= 1 and r.random() < .7:
            t[i]['names'] = ps
        else:
            n = r.choice([1, 2, 3, 5])
            cuts = sorted(r.randrange(len(ps) + 1) for _ in range(n - 1))
            lim = r.random() < .9
            for a, z in zip([0] + cuts, cuts + [len(ps)]):
                t[i]['kids'].append(grow(ps[a:z], r.randrange(depth), lim) + 1)
        return i
    if r.random() < .9:
        grow(pairs, r.choice([0, 1, 2, 4, 8]), r.random() < .1)
        if r.random() < .05:
            x = r.choice(t)
            if not x['names']:
                x['kids'].append(r.randrange(len(t)) + 1)
    old = {}
    for i in range(r.choice([0, 0, 1, 5])):
        k = tuple(r.choice(ks)) if ks and r.random() < .4 else tuple(rname(r))
        if k and 0 not in k:
            old[k] = {'k': list(k), 'v': rvalue(r, 500 + i)}
    qs = [r.choice(ks) if ks and r.random() < .6 else rname(r) for _ in range(r.choice([3, 6]))] + [o['k'] for o in list(old.values())[:2]]
    if ks and r.random() < .5:
        # close to a name there is
        k = list(r.choice(ks))
        qs += [k + [1], k[:-1]]
    return {'t': t, 'old': list(old.values()), 'ks': [list(q) for q in qs], 'seed': r.random(), 'caching': r.random() < .7}
