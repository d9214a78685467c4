"""Files of all kinds with bytes damaged at random, and files that ask for far too much (for Session.tla)."""
import os, random, re, tempfile
import interp, convdocs, xrefs, images, fonts, outlines, crypt, damage
from pdfgen import PDF, Name, Ref, Stream, simple_doc


def source(r):
    k = r.randrange(8)
    if k == 0:
        return convdocs.build(convdocs.random_doc(r))
    if k == 1:
        return images.document(images.random_case(r))
    if k == 2:
        return xrefs.build(xrefs.random_case(r), r.random())
    if k == 3:
        pdf = PDF()
        f = fonts.random_simple(r)
        fd = fonts.simple_font(r, pdf, f)
        return fonts.document(pdf, fd, [bytes(fonts.codes_for(r, f, 5))], 10, 0)
    if k == 4:
        pdf = PDF()
        f, strs = fonts.random_composite(r, r.choice(['width', 'text']))
        with tempfile.TemporaryDirectory(prefix='vcmap-') as d:
            fd = fonts.composite_font(r, pdf, f, r.random(), d)
        return fonts.document(pdf, fd, [bytes(s) for s in strs], 10, 0, 0)
    if k == 5:
        return damage.build(damage.random_doc(r), r.random())
    if k == 6:
        d = crypt.build(crypt.random_doc(r), r.random())
        return d[0] if isinstance(d, tuple) else d
    g = interp.Gen(r, {'depth': 2, 'form': .3})
    return interp.build_case(g.page(r.randint(2, 12)), r)


def mutate(r, d):
    d = bytearray(d)
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        k = r.randrange(7)
        if not d:
            break
        i = r.randrange(len(d))
        if k == 0:
            del d[i:]
        elif k == 1:
            d[i] = r.randrange(256)
        elif k == 2:
            del d[i:i + r.choice([1, 1, 5, 40, 400])]
        elif k == 3:
            ms = list(re.finditer(rb'(\d+) 0 R', d))
            if ms:
                m = r.choice(ms)
                t = r.choice(ms).group(1) if r.random() < .8 else b'%d' % r.choice([0, 999, 1])
                d[m.start():m.end()] = r.choice([t + b' 0 R'] * 5 + [b'null', b'7', b'/X', b'[]', b'<<>>', b'(s)'])
        elif k == 4:
            ms = list(re.finditer(rb'(?<![\w.#/<])-?\d+(\.\d+)?(?![\w.])', d))
            if ms:
                m = r.choice(ms)
                d[m.start():m.end()] = r.choice([b'0', b'-1', b'1', b'99999999', b'2147483648', b'null', b'/N', b'(s)', b'[]', b'<<>>', b'1.5', b'true', b'3'])
        elif k == 5:
            ms = list(re.finditer(rb'/[A-Za-z0-9]+', d))
            if ms:
                m = r.choice(ms)
                t = r.choice(ms).group(0)
                d[m.start():m.end()] = r.choice([t, t, t, t, b'/Zz', b'null', b'12', b'(x)', b'[1 2]', b'<</A 1>>'])
        else:
            ms = list(re.finditer(rb'\[[^][]*\]|<<[^<>]*>>|\([^()]*\)', d))
            if ms:
                m = r.choice(ms)
                d[m.start():m.end()] = r.choice([b'null', b'0', b'/N', b'[]', b'<<>>', b'()', b'[[]]', b'[null]', b'[0 0 R]'])
    return bytes(d)


# ------------------------------------------------------------ files that ask for too much
def deep_pages(n):
    p = PDF()
    ids = [p.reserve() for _ in range(n)]
    for i, a in enumerate(ids):
        if i < n - 1:
            p.add({'Type': Name('Pages'), 'Kids': [ids[i + 1]], 'Count': 1}, a)
        else:
            p.add({'Type': Name('Page'), 'Parent': ids[i - 1], 'MediaBox': [0, 0, 9, 9]}, a)
    p.root = p.add({'Type': Name('Catalog'), 'Pages': ids[0]})
    return p.build()


def revisions(n, loop):
    out = bytearray(b'%PDF-1.4\n')
    pos = {}
    for k, b in ((1, b'<</Type/Catalog/Pages 2 0 R>>'), (2, b'<</Type/Pages/Kids[3 0 R]/Count 1>>'), (3, b'<</Type/Page/MediaBox[0 0 9 9]>>')):
        pos[k] = len(out)
        out += b'%d 0 obj\n' % k + b + b'\nendobj\n'
    prev = len(out) + loop * 10 ** 9 if loop else None
    first = len(out)
    for i in range(n):
        x = len(out)
        p = prev if prev else None
        if loop and i == 0:
            p = first + (n - 1) * 0
        out += b'xref\n0 4\n0000000000 65535 f \n' + b''.join(b'%010d 00000 n \n' % pos[k] for k in (1, 2, 3))
        out += b'trailer\n<</Size 4/Root 1 0 R' + (b'/Prev %d' % p if p else b'') + b'>>\n'
        prev = x
    return bytes(out + b'startxref\n%d\n%%%%EOF' % prev)


def nested_forms(n, loop):
    p = PDF()
    t = p.reserve()
    ids = [p.reserve() for _ in range(n)]
    for i, a in enumerate(ids):
        to = ids[i + 1] if i < n - 1 else ids[0] if loop else None
        p.add(Stream(b'0 0 1 1 re f ' + (b'/X Do' if to else b''),
                     {'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': [0, 0, 9, 9], 'Resources': {'XObject': {'X': to} if to else {}}}), a)
    pg = p.add({'Type': Name('Page'), 'Parent': t, 'MediaBox': [0, 0, 9, 9], 'Contents': p.add(Stream(b'/X Do')), 'Resources': {'XObject': {'X': ids[0]}}})
    p.add({'Type': Name('Pages'), 'Kids': [pg], 'Count': 1}, t)
    p.root = p.add({'Type': Name('Catalog'), 'Pages': t})
    return p.build()


def one_font(fd, more):
    p = PDF()
    t = p.reserve()
    for k, v in more.items():
        fd[k] = p.add(v)
    pg = p.add({'Type': Name('Page'), 'Parent': t, 'MediaBox': [0, 0, 9, 9], 'Contents': p.add(Stream(b'BT /F 1 Tf (AB) Tj ET')), 'Resources': {'Font': {'F': p.add(fd)}}})
    p.add({'Type': Name('Pages'), 'Kids': [pg], 'Count': 1}, t)
    p.root = p.add({'Type': Name('Catalog'), 'Pages': t})
    return p.build()


def composite(d, more):
    c = {'Type': Name('Font'), 'Subtype': Name('CIDFontType0'), 'BaseFont': Name('X'),
         'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Identity', 'Supplement': 0}, 'FontDescriptor': {'Type': Name('FontDescriptor')}}
    c.update(d)
    return one_font({'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name('X'), 'Encoding': Name('Identity-H'), 'DescendantFonts': [c]}, more)


def cyclic(r):
    """every reference leads round and round"""
    p = PDF()
    ids = [p.reserve() for _ in range(4)]
    for i, a in enumerate(ids):
        p.add(r.choice([ids[(i + 1) % 4], ids[i], [ids[(i + 1) % 4]], {'Length': ids[(i + 1) % 4], 'Type': ids[i]}, Stream(b'x', {'Length': a})]), a)
    x = lambda: r.choice(ids)
    t = p.reserve()
    pg = p.add({'Type': r.choice([Name('Page')] * 6 + [x()]), 'Parent': t, 'MediaBox': x(), 'Contents': r.choice([x(), [x()], p.add(Stream(b'/X Do /C cs 1 scn BT /F 1 Tf (A) Tj ET'))]),
                'Rotate': 0, 'Resources': r.choice([x(), {'XObject': {'X': x()}, 'Font': {'F': x()}, 'ColorSpace': {'C': x()}}, {'XObject': x(), 'Font': x()}])})
    p.add({'Type': Name('Pages'), 'Kids': r.choice([[pg], [pg], x()]), 'Count': 1}, t)
    p.root = p.add({'Type': Name('Catalog'), 'Pages': t})
    return p.build(r)


def excessive(r):
    k = r.randrange(12)
    n = r.choice([100, 1500, 3000])
    page = lambda c: simple_doc([(c + b' 0 0 1 1 re f', {}, {})]).build()
    if k == 0:
        return deep_pages(n)
    if k == 1:
        return revisions(n, 0)
    if k == 2:
        return nested_forms(r.choice([1, 5, 100]), r.random() < .7)
    if k == 3:
        return page(b'[' * n * 5 + b']' * n * 5)
    if k == 4:
        return page(b'<</A ' * n + b'>>' * n)
    if k == 5:
        return page(b'q ' * n * 10)
    if k == 6:
        return page(b'(' * n * 10 + b')' * r.choice([n * 10, 0, 7]))
    big = r.choice([99999999, 2 ** 31, 10 ** 12])
    if k == 7:
        w = r.choice([[0, big, 500], [-big, 5, 500], [0, big, 1, 1, 1]])
        return composite({'W': w, 'W2': w}, {})
    if k == 8:
        d = bytes([r.randrange(3)]) * r.randrange(4, 6)
        cm = r.choice([b'1 begincidrange <00000000> <ffffffff> 0 endcidrange', b'1 beginbfrange <00000000> <ffffffff> <0041> endbfrange',
                       b'1 beginbfrange <0000000000> <ffffffffff> <0041> endbfrange', b'1 begincidrange <0000000000> <00ffffffff> 0 endcidrange',
                       b'1 begincidrange <00> <ffffffff> 0 endcidrange', b'1 beginbfrange <ffff> <00000000ffff> [<0041>] endbfrange'])
        cs = Stream(b'/CIDInit /ProcSet findresource begin begincmap ' + cm + b' endcmap', {'Type': Name('CMap'), 'CMapName': Name('Q')})
        return composite({}, {r.choice(['ToUnicode', 'Encoding']): cs})
    if k == 9:
        return one_font({'Type': Name('Font'), 'Subtype': Name(r.choice(['Type1', 'TrueType', 'Type3'])), 'BaseFont': Name('X'), 'FirstChar': r.choice([0, -big, big]),
                         'LastChar': r.choice([big, -big]), 'Widths': [1] * r.choice([0, 3])}, {})
    return cyclic(r)


def make(seed):
    r = random.Random(seed)
    if r.random() < .15:
        return excessive(r)
    return mutate(r, source(r))


class Many(BaseException):
    pass


def observe(case):
    from pdfmajor.interpreter import PDFInterpreter

    def go(path):
        ev = []
        left = 100000

        def describe(it):
            nonlocal left
            left -= 1
            if left < 0:
                raise Many()
            s = type(it).__name__ + repr(getattr(it, 'bbox', None))
            if hasattr(it, 'get_text'):
                s += repr(it.get_text())
            if hasattr(it, '__iter__'):
                s += '(' + ','.join(describe(x) for x in it) + ')'
            return s if len(s) < 60 else str(hash_(s))
        try:
            doc = None
            for _ in range(2):
                try:
                    if doc is None:
                        doc = PDFInterpreter(path, password='', caching=case['caching'])
                    for p in doc:
                        ev.append({'e': 'page', 'v': str(p.page_num)})
                        try:
                            for it in p:
                                ev.append({'e': 'item', 'v': describe(it)})
                            ev.append({'e': 'endpage', 'v': ''})
                        except Exception as e:
                            if isinstance(e, MemoryError):
                                raise
                            ev.append({'e': 'pageerror', 'v': type(e).__name__})
                    ev.append({'e': 'end', 'v': ''})
                except Exception as e:
                    if isinstance(e, MemoryError):
                        raise
                    ev.append({'e': 'error', 'v': type(e).__name__})
        except MemoryError:
            ev = ev[:50] + [{'e': 'fate', 'v': 'exhausts the memory'}]
        except Many:
            ev = ev[:50] + [{'e': 'fate', 'v': 'gives items without end'}]
        return {'ev': ev}
    return interp.run_bytes(make(case['seed']), go)


def hash_(s):
    import zlib
    return zlib.crc32(s.encode('utf-8', 'surrogatepass'))
