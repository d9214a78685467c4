"""Documents for the converters, the items the interpreter yields for them, and what the converted files say (for Convert.tla)."""
import html.parser, json, os, random, re, shutil, tempfile, zlib
import xml.etree.ElementTree as ET
from pdfgen import PDF, Name, Ref, Stream, Raw, flate

FORMATS = ['text', 'json', 'xml', 'html', 'yaml']
TEXTS = ['a', 'B', ' ', '<', '>', '&', '"', "'", '\\', '\n', '\r', '\t', '\x00', '\x01', '\x0b', '\x1f', '\x7f', '\x85', '\x9f', '\xa0', '\xe9', '\u2028',
         '\ufeff', '\ufffe', '\uffff', '\ufffd', '\ufdd0', '\u6f22', '\U0001f600', '\U0001fffe', '&amp;', '<b>', ']]>', '-->', 'fi', ' x', 'x ', ': ', ' #', '- ',
         '1', '20', '007', 'null', 'yes', '...', '---', '\u200b', '\u0301', '{', '}', '[', ']', ',', '%', '@', '`', '|', '!', '*', '?', '\\n', '&#13;']
DESC_KEYS = ['Flags', 'ItalicAngle', 'StemV', 'A"B', '<x>', 'a b', 'text', 'size', 'x0', 'y1', 'color', 'Type', 'FontFile', 'FontFile2', 'CharSet', '1st',
             'xmlns', 'FontFamily', 'a:b', "q'", 'k\\', 'null', '20', '\xff\xfe', '\xe9', '#', '-', 'Lang', 'children', 'caf\xc3\xa9', 'amp&', 'X0', 'Size']


def codes(s):
    return [ord(c) for c in s]


def num(x):
    return repr(float(x))


# ------------------------------------------------------------ documents
def random_value(r, pdf):
    return r.choice([0, -12.5, 700, True, None, Name('Bold'), Name('\xff\x00'), b'Text "x" <&>', b'', b'\xff\r\n', b'20', [0, -200, 1000, 900], [], [Name('a'), b'b', None],
                     {}, {'K': 1, 'L"': [b'x']}, pdf.add(7), r.randrange(-10 ** 6, 10 ** 6) / 1000])


def font(r, pdf):
    n = r.randrange(1, 8)
    targets = {}
    for i in range(n):
        targets[65 + i] = r.choice(TEXTS) if r.random() < .8 else chr(r.randrange(32, 0xd800))
    cmap = b'/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n1 begincodespacerange\n<00> <ff>\nendcodespacerange\n%d beginbfchar\n' % n
    for c, t in targets.items():
        cmap += b'<%02x> <%s>\n' % (c, t.encode('utf-16-be').hex().encode())
    cmap += b'endbfchar\nendcmap\nend\nend\n'
    desc = {'Type': Name('FontDescriptor')}
    keys = ['FontName'] * (r.random() < .9) + r.sample(DESC_KEYS, r.randrange(0, 6))
    r.shuffle(keys)
    for k in keys:
        if k == 'Type':
            continue
        desc[k] = Name(r.choice(['Helv', 'A;B', 'Times"New', '\xff\xfe', 'caf\xc3\xa9', 'x<y', 'A B', 'normal', 'F1'])) if k == 'FontName' else random_value(r, pdf)
        if k.startswith('FontFile'):
            desc[k] = pdf.add(Stream(b'x'))
    desc.update({'Ascent': 800, 'Descent': -200, 'FontBBox': [0, -200, 1000, 800], 'MissingWidth': r.choice([300, 500, 612.5])})
    f = {'Type': Name('Font'), 'Subtype': Name(r.choice(['Type1', 'TrueType'])), 'BaseFont': Name('Base%d' % r.randrange(9)), 'FirstChar': 65, 'LastChar': 64 + n,
         'Widths': [r.choice([250, 500, 777.7]) for _ in range(n)], 'FontDescriptor': pdf.add(desc), 'Encoding': Name('WinAnsiEncoding'),
         'ToUnicode': pdf.add(flate(cmap) if r.random() < .5 else Stream(cmap))}
    return pdf.add(f), [65 + i for i in range(n)]


def coord(r):
    return r.choice([b'%d' % r.randrange(-50, 700), b'%d.%d' % (r.randrange(600), r.randrange(10)), b'0', b'100'])


class Page:
    """content for a list of [kind, ...] statements"""

    def __init__(self, r, pdf, fonts, images, forms):
        self.r, self.pdf, self.fonts, self.images, self.forms = r, pdf, fonts, images, forms

    def color(self):
        r = self.r
        c = r.choice([b'', b'', b'.5 g\n', b'0 G\n', b'1 0 .25 rg\n', b'0 1 0 RG\n', b'0 0 0 1 k\n', b'.1 .2 .3 .4 K\n', b'/Pattern cs /P1 scn\n', b'/Pattern CS /P#22<\xff SCN\n'.replace(b'<', b'#3c'),
                      b'/Cs1 cs .3 scn\n', b'/DeviceGray cs scn\n', b'/DeviceRGB cs .1 .2 .3 sc\n'])
        return c

    def codes(self, f):
        return bytes(self.r.choice(f) for _ in range(self.r.randrange(1, 6)))

    def item(self, k):
        r, c = self.r, lambda n: b' '.join(coord(r) for _ in range(n))
        if k == 'text':
            i = r.randrange(len(self.fonts))
            out = b'BT /F%d %d Tf %s Td ' % (i, r.choice([1, 8, 12]), c(2))
            for _ in range(r.choice([1, 1, 2, 3])):
                s = self.codes(self.fonts[i][1])
                out += r.choice([b'<%s> Tj ' % s.hex().encode(), b'[<%s> -120 <%s>] TJ ' % (s.hex().encode(), self.codes(self.fonts[i][1]).hex().encode())])
                if r.random() < .2:
                    out += self.color().strip() + b' '
            return self.color() + out + b'ET\n'
        if k == 'rect':
            return self.color() + b'%s re %s\n' % (c(4), r.choice([b'f', b'S', b'B*']))
        if k == 'line':
            x = coord(r)
            return self.color() + r.choice([b'%s m %s l S\n' % (c(2), c(2)), b'%s 5 m %s 90 l s\n'.replace(b's\n', b'S\n') % (x, x)])
        if k == 'curve':
            out = b'%s m ' % c(2)
            for _ in range(r.randrange(1, 4)):
                out += r.choice([b'%s l ' % c(2), b'%s c ' % c(6), b'%s v ' % c(4), b'%s y ' % c(4), b'h '])
            return self.color() + out + r.choice([b'%s l %s l f\n' % (c(2), c(2)), b'h %s l b\n' % c(2), b'0 0 0 0 0 0 c f\n'])
        if k == 'dot':
            return b'7 9 m 7 9 l 7 9 l S\n'
        if k == 'image':
            if self.images and r.random() < .6:
                return b'q %s 0 0 %s %s cm /Im%d Do Q\n' % (coord(r), coord(r), c(2), r.randrange(len(self.images)))
            return b'q 9 0 0 9 %s cm BI /W 2 /H 2 /BPC 8 /CS /G ID %sEI Q\n' % (c(2), bytes(r.choice(b'abcd') for _ in range(4)) + b'\n')
        if k == 'form':
            return b'/Fm%d Do\n' % r.randrange(len(self.forms))
        if k == 'bad':
            return r.choice([b'/Nope Do\n', b'BT /F0 9 Tf <ff> Tj ET\n', b'BT <41> Tj ET\n'])
        raise ValueError(k)


KINDS = ['text', 'text', 'text', 'rect', 'line', 'curve', 'dot', 'image', 'form']


def build(case):
    """case: seed, pages: list of lists of item kinds (a nested list is a form with these items), enc: password or None, noextract"""
    r = random.Random(case['seed'])
    pdf = PDF()
    tree = pdf.reserve()
    fonts = [font(r, pdf) for _ in range(r.randrange(1, 3))]
    images = [pdf.add(Stream(b'\x10\x20\x30\x40', {'Type': Name('XObject'), 'Subtype': Name('Image'), 'Width': 2, 'Height': 2, 'BitsPerComponent': 8,
                                                   'ColorSpace': Name('DeviceGray')})) for _ in range(2)]
    base = {'Font': {'F%d' % i: f[0] for i, f in enumerate(fonts)}, 'ColorSpace': {'Cs1': [Name('Separation'), Name('Spot'), Name('DeviceRGB'), 0]},
            'XObject': {'Im%d' % i: x for i, x in enumerate(images)}}

    def content(items):
        forms = [form(x) for x in items if isinstance(x, list)]
        n = 0
        p = Page(r, pdf, fonts, images, forms)
        out = b''
        for x in items:
            if isinstance(x, list):
                out += b'/Fm%d Do\n' % n
                n += 1
            else:
                out += p.item(x)
        res = dict(base)
        res['XObject'] = dict(base['XObject'], **{'Fm%d' % i: f for i, f in enumerate(forms)})
        return out, res

    def form(items):
        out, res = content(items)
        return pdf.add(Stream(out, {'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': [0, 0, r.choice([100, 55.5]), 90], 'Resources': res}))
    kids = []
    for items in case['pages']:
        out, res = content(items)
        kids.append(pdf.add({'Type': Name('Page'), 'Parent': tree, 'MediaBox': [0, 0, r.choice([600, 612.25]), 800], 'Resources': res,
                             'Contents': pdf.add(flate(out) if r.random() < .5 else Stream(out))}))
    pdf.add({'Type': Name('Pages'), 'Kids': kids, 'Count': len(kids)}, tree)
    pdf.root = pdf.add({'Type': Name('Catalog'), 'Pages': tree})
    if case.get('enc') is not None:
        encrypt(r, pdf, case['enc'].encode('latin-1'), case.get('noextract'))
    return pdf.build()


def encrypt(r, pdf, pw, noextract):
    """RC4, 40 bits"""
    from crypt import rc4, md5  # ours
    pad = bytes.fromhex('28BF4E5E4E758A4164004E56FFFA01082E2E00B6D0683E802F0CA9FE6453697A')
    padded = (pw + pad)[:32]
    o = rc4(md5((b'owner' + pad)[:32])[:5], padded)
    p = -4 if not noextract else -4 & ~16
    docid = bytes(range(16))
    key = md5(padded + o + (p & 0xffffffff).to_bytes(4, 'little') + docid)[:5]
    u = rc4(key, pad)

    def enc(x, k):
        if isinstance(x, (bytes, bytearray)) and not isinstance(x, Raw):
            return rc4(k, bytes(x)) if x else x
        if isinstance(x, list):
            return [enc(y, k) for y in x]
        if isinstance(x, dict):
            return {a: enc(b, k) for a, b in x.items()}
        if isinstance(x, Stream):
            return Stream(rc4(k, x.data) if x.data else b'', {a: enc(b, k) for a, b in x.d.items()})
        return x
    for n in pdf.objs:
        pdf.objs[n] = enc(pdf.objs[n], md5(key + n.to_bytes(3, 'little') + b'\0\0')[:10])
    pdf.trailer = {'Encrypt': {'Filter': Name('Standard'), 'V': 1, 'R': 2, 'O': o, 'U': u, 'P': p}, 'ID': [docid, docid]}


# ------------------------------------------------------------ what the interpreter yields
NODE = {'k': '', 'd': 0, 'id': [], 'box': [], 'wh': [], 'size': '', 'text': [], 'name': [], 'desc': [], 'col': [], 'fill': [], 'stroke': [], 'pts': []}


def node(k, d, **kw):
    n = dict(NODE, k=k, d=d)
    n.update(kw)
    return n


def native(v):
    """the JSON text of a descriptor entry as YAML shows it"""
    def f(x):
        if x is None or isinstance(x, (bool, int, str)):
            return x
        if isinstance(x, float):
            return x
        if isinstance(x, (list, tuple)):
            return [f(y) for y in x]
        if isinstance(x, dict):
            return {str(a): f(b) for a, b in x.items()}
        return str(x)
    return json.dumps(f(v), sort_keys=True)


def color(c):
    from pdfmajor.parser.PSStackParser import PSLiteral
    if c.color_space is None:
        return []
    return [codes(str(c.color_space.name))] + [codes(str(v.name) if isinstance(v, PSLiteral) else str(v)) for v in c.values]


def box(x):
    return [num(x.x0), num(x.x1), num(x.y0), num(x.y1)]


def source(path, opts):
    from pdfmajor.interpreter import PDFInterpreter, LTImage, LTTextBlock, LTCurve, LTXObject
    from pdfmajor.interpreter.commands import LTRect, LTLine
    out = []

    def walk(it, d):
        if isinstance(it, LTTextBlock):
            out.append(node('text', d, box=box(it)))
            for b in it:
                desc = []
                for k, v in b.font.descriptor.items():
                    k = k.decode('latin-1') if isinstance(k, bytes) else str(k)
                    desc.append([codes(k), codes(str(v)), codes(native(v))])
                out.append(node('block', d + 1, box=box(b), wh=[num(b.width), num(b.height)], size=num(b.size), col=color(b.color), desc=desc, name=codes(b.fontname)))
                for c in b:
                    out.append(node('char', d + 2, box=box(c), wh=[num(c.width), num(c.height)], text=codes(c.get_text())))
        elif isinstance(it, LTXObject):
            out.append(node('form', d, box=box(it), wh=[num(it.width), num(it.height)]))
            for x in it:
                walk(x, d + 1)
        elif isinstance(it, LTImage):
            out.append(node('image', d, box=box(it), wh=[num(it.width), num(it.height)], name=codes(it.name)))
        elif isinstance(it, LTCurve):
            k = 'rect' if isinstance(it, LTRect) else 'line' if isinstance(it, LTLine) else 'curve'
            out.append(node(k, d, box=box(it), wh=[num(it.width), num(it.height)], fill=color(it.fill), stroke=color(it.stroke),
                            pts=[[p.method.name, [[num(q.x), num(q.y)] for q in p.points]] for p in it.paths]))
        else:
            out.append(node('other', d))
    try:
        for pg in PDFInterpreter(path, **opts):
            out.append(node('page', 0, id=codes(str(pg.page_num)), wh=[num(pg.width), num(pg.height)]))
            for it in pg:
                walk(it, 1)
        return {'exc': 'none', 'nodes': out}
    except Exception as e:
        return {'exc': type(e).__name__, 'nodes': []}


# ------------------------------------------------------------ what the files say
def unordered(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise ValueError('repeated key ' + k)
        d[k] = v
    return d


def col_of(d, k):
    return [codes(d[k]['type'])] + [codes(v) for v in d[k]['value']] if k in d else []


def from_tree(tree, fmt):
    out = []
    assert list(tree) == ['pages']

    def b4(d):
        return [num(d[k]) for k in ('x0', 'x1', 'y0', 'y1')]

    def walk(d, depth):
        t = d['type']
        if t == 'text-block':
            out.append(node('text', depth, box=b4(d)))
            for b in d['char_blocks']:
                desc = sorted([codes(k), codes(v) if fmt == 'json' else codes(json.dumps(v, sort_keys=True))] for k, v in b.items()
                              if k not in ('size', 'x0', 'x1', 'y0', 'y1', 'text') and not (k == 'color' and isinstance(v, dict) and set(v) == {'type', 'value'}))
                out.append(node('block', depth + 1, box=b4(b), size=num(b['size']), text=codes(b['text']), desc=desc,
                                col=col_of(b, 'color') if isinstance(b.get('color'), dict) and 'type' in b['color'] else []))
        elif t == 'xobject':
            out.append(node('form', depth, box=b4(d)))
            for x in d['children']:
                walk(x, depth + 1)
        elif t == 'img':
            out.append(node('image', depth, box=b4(d), name=codes(d['src'])))
        else:
            assert t in ('rect', 'line', 'curve')
            out.append(node(t, depth, box=b4(d), fill=col_of(d, 'fill'), stroke=col_of(d, 'stroke'),
                            pts=[[p['type'], [[num(q['x']), num(q['y'])] for q in p['points']]] for p in d.get('paths', [])]))
    for p in tree['pages']:
        out.append(node('page', 0, id=codes(str(p['id'])), wh=[num(p['width']), num(p['height'])]))
        for x in p['children']:
            walk(x, 1)
    return out


def read_json(data, codec):
    return from_tree(json.loads(data.decode(codec), object_pairs_hook=unordered), 'json')


def read_yaml(data, codec):
    import yaml
    return from_tree(yaml.safe_load(data.decode(codec)), 'yaml')


def read_xml(data, codec):
    root = ET.fromstring(data)
    assert root.tag == 'pages'
    out = []

    def b4(a):
        return [num(a[k]) for k in ('x0', 'x1', 'y0', 'y1')]

    def col(a, k):
        return [codes(a[k + '-type']), codes(a[k + '-values'])] if k + '-type' in a else []

    def blank(e):
        if any((t or '').strip() for t in [e.text] + [c.tail for c in e]):
            raise ValueError('text between elements')

    def walk(e, d):
        a = e.attrib
        if e.tag == 'char':
            assert len(e) == 0
            out.append(node('char', d, box=b4(a), text=codes(e.text or '')))
            return
        blank(e)
        if e.tag == 'page':
            out.append(node('page', d, id=codes(a['id']), wh=[num(a['width']), num(a['height'])]))
        elif e.tag == 'text-block':
            out.append(node('text', d, box=b4(a)))
        elif e.tag == 'char-block':
            out.append(node('block', d, box=b4(a), size=num(a['size']), col=col(a, 'color'), name=codes(a.get('font-name', ''))))
        elif e.tag == 'xobject':
            out.append(node('form', d, box=b4(a)))
        elif e.tag == 'img':
            out.append(node('image', d, box=b4(a), name=codes(a['src'])))
        elif e.tag in ('rect', 'line', 'curve'):
            pts = []
            for p in e:
                assert p.tag == 'path' and all(q.tag == 'point' for q in p)
                pts.append([p.attrib['type'], [[num(q.attrib['x']), num(q.attrib['y'])] for q in p]])
            out.append(node(e.tag, d, box=b4(a), fill=col(a, 'fill'), stroke=col(a, 'stroke'), pts=pts))
            return
        else:
            raise ValueError('element ' + e.tag)
        for c in e:
            walk(c, d + 1)
    blank(root)
    for p in root:
        walk(p, 0)
    return out


VOID = {'meta', 'img'}


class Html(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.st, self.out, self.top = [], [], None

    def handle_starttag(self, tag, attrs):
        a = {}
        for k, v in attrs:
            if k in a:
                raise ValueError('attribute twice: ' + k)
            a[k] = v
        self.open(tag, a)
        if tag not in VOID:
            self.st.append(tag)

    def handle_startendtag(self, tag, attrs):
        self.open(tag, dict(attrs))

    def handle_endtag(self, tag):
        if not self.st or self.st.pop() != tag:
            raise ValueError('closes ' + tag)

    def depth(self):
        return len(self.st) - 2

    def open(self, tag, a):
        css = a.get('style') or ''

        def px(k):
            m = re.search(r'(?:^|;)%s: (-?[\d.e+-]+)(?:px)?(?:;|$)' % k, css)
            return num(m.group(1))
        c, d = a.get('class'), self.depth()
        if c == 'page':
            self.out.append(node('page', d, id=codes(a['id'][5:] if a['id'].startswith('page-') else '?'), wh=[px('width'), px('height')]))
        elif c == 'text-block':
            self.out.append(node('text', d))
        elif c == 'char-block':
            m = re.search(r';font-family: (.*);font-weight: ', css, re.S)
            self.out.append(node('block', d, box=[px('left'), px('bottom')], size=px('font-size'), wh=[px('width'), px('height')], name=codes(m.group(1))))
        elif c == 'char':
            self.out.append(node('char', d, wh=[px('width'), px('height')]))
        elif c == 'xobject':
            self.out.append(node('form', d, box=[px('left'), px('right'), px('bottom'), px('top')], wh=[px('width'), px('height')]))
        elif tag == 'img':
            self.out.append(node('image', d, name=codes(a['src']), wh=[re.sub(r'px$', '', a[k]) and num(re.sub(r'px$', '', a[k])) for k in ('width', 'height')]))
        elif tag == 'svg':
            self.out.append(node('shape', d, box=[px('left')], wh=[px('width'), px('height')]))
        elif tag == 'path':
            self.out[-1]['pts'] = [[m.group(1), len(m.group(2).split()) // 2] for m in re.finditer(r'([MLCZ])([^MLCZ]*)', a['d'])]
        elif tag not in ('html', 'head', 'meta', 'style', 'body'):
            raise ValueError('element %s %s' % (tag, c))

    def handle_data(self, s):
        if self.st and self.st[-1] == 'style':
            return
        if self.out and self.out[-1]['k'] == 'char' and self.depth() == self.out[-1]['d'] + 1:
            self.out[-1]['text'] = self.out[-1]['text'] + codes(s)
        elif s.strip():
            raise ValueError('text outside')


def read_html(data, codec):
    p = Html()
    p.feed(data.decode(codec))
    p.close()
    if p.st:
        raise ValueError('not closed')
    return p.out


READ = {'json': read_json, 'yaml': read_yaml, 'xml': read_xml, 'html': read_html}


def convert(d, path, fmt, opts, codec, default_name):
    from pdfmajor.converters import convert_file
    ext = {'yaml': 'yml'}.get(fmt, fmt) if default_name == 2 else fmt
    out = path[:-4] + '.' + ext if default_name else os.path.join(d, 'o.' + ext)
    try:
        convert_file(path, None if default_name else out, codec=codec, out_type=ext, dont_export_images=True, **opts)
        return 'none', open(out, 'rb').read()
    except Exception as e:
        return type(e).__name__, b''
    finally:
        if os.path.exists(out):
            os.unlink(out)


def observe(case):
    """case: docs, plan: list of [doc, fmt, opts, codec, default_name] done in this order in this process"""
    d = tempfile.mkdtemp(prefix='vconv-')
    try:
        files = []
        for i, doc in enumerate(case['docs']):
            files.append(os.path.join(d, 'doc%d.v1.pdf' % i))
            open(files[-1], 'wb').write(build(doc))
        out = []
        for i, fmt, opts, codec, dn in case['plan']:
            kw = dict(opts)
            src = source(files[i], kw)
            exc, data = convert(d, files[i], fmt, kw, codec, dn)
            o = {'fmt': fmt, 'src': src['nodes'], 'sexc': src['exc'], 'exc': exc, 'read': 'none', 'nodes': [], 'text': [], 'same': True}
            if exc == 'none' and src['exc'] == 'none':
                try:
                    if fmt == 'text':
                        o['text'] = codes(data.decode(codec))
                    else:
                        o['nodes'] = READ[fmt](data, codec)
                except Exception as e:
                    o['read'] = '%s: %s' % (type(e).__name__, ''.join(c for c in str(e)[:60] if 31 < ord(c) < 127))
            out.append((o, data))
        # again, in another order: the same bytes
        r = random.Random(case['seed'])
        order = list(range(len(case['plan'])))
        r.shuffle(order)
        for n in order:
            i, fmt, opts, codec, dn = case['plan'][n]
            exc, data = convert(d, files[i], fmt, dict(opts), codec, dn)
            if (exc, data) != (out[n][0]['exc'], out[n][1]):
                out[n][0]['same'] = False
        return [o for o, _ in out]
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------ random cases
def random_items(r, n, depth=2):
    out = []
    for _ in range(n):
        k = r.choice(KINDS)
        if k == 'form':
            k = random_items(r, r.randrange(0, 4), depth - 1) if depth else 'rect'
        out.append(k)
    return out


def random_doc(r):
    d = {'seed': r.randrange(1 << 30), 'pages': [random_items(r, r.choice([0, 1, 2, 4, 6])) for _ in range(r.choice([0, 1, 1, 2, 3, 4] if r.random() < .3 else [1, 2, 3]))]}
    if r.random() < .12 and d['pages']:
        r.choice(d['pages']).append('bad')
    if r.random() < .2:
        d['enc'] = r.choice(['', 'pw'])
        d['noextract'] = r.random() < .3
    return d


def random_opts(r, doc):
    o = {}
    n = len(doc['pages'])
    if r.random() < .3:
        o['pagenos'] = sorted(r.sample(range(n + 1), r.randrange(0, n + 1)))
    if r.random() < .25:
        o['maxpages'] = r.randrange(0, n + 2)
    if r.random() < .4:
        o['ignore_bad_chars'] = r.random() < .7
    if r.random() < .2:
        o['caching'] = r.random() < .5
    if doc.get('enc') is not None:
        if r.random() < .9:
            o['password'] = doc['enc'] if r.random() < .9 else 'wrong'
        if r.random() < .5:
            o['check_extractable'] = r.random() < .5
    return o


def random_case(r, fmts, n):
    docs = [random_doc(r) for _ in range(2)]
    plan = []
    for _ in range(n):
        i = r.randrange(2)
        fmt = r.choice(fmts)
        codec = r.choice(['utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252']) if fmt != 'text' else 'utf-8'
        plan.append([i, fmt, random_opts(r, docs[i]), codec, r.choice([0, 0, 0, 1, 2])])
    return {'docs': docs, 'plan': plan, 'seed': r.randrange(1 << 30)}
