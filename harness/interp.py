"""Page programs: random generation, rendering to PDF, observing what the interpreter yields."""
import os, tempfile
from pdfgen import *

PROJ_ALL = ['box', 'color', 'width', 'path', 'src', 'font', 'glyphbox']


def op(o, a=(), n='', s=()):
    return {'o': o, 'a': list(a), 'n': n, 's': list(s)}


# ------------------------------------------------------------ rendering
def num(v, rng):
    """v in thousandths -> one of its spellings"""
    neg = v < 0
    a = abs(v)
    ip, fp = divmod(a, 1000)
    f = ('%03d' % fp).rstrip('0')
    if not f:
        s = str(ip)
        if rng is not None:
            s = rng.choice([s, s, s, s + '.', s + '.0', '0' + s])
    else:
        s = '%d.%s' % (ip, f)
        if rng is not None:
            s = rng.choice([s, s, s + '0'] + ([s[1:]] if ip == 0 else []))
    if neg:
        s = '-' + s
    elif rng is not None and rng.random() < 0.05:
        s = '+' + s
    return s.encode()


MATRIX_OPS = ('cm', 'Tm')
SPACED = {'J': '1', 'j': '1', 'M': '10', 'd': '[3 1] 0', 'ri': '/Perceptual', 'i': '1', 'Tr': '0', 'gs': '/GS0',
          'BMC': '/Span', 'MP': '/Here', 'xyzzy': '7 /x', 'sh': '/Sh'}


def inline_bytes(p, rng):
    """BI ... EI for the image samples p['s'][0]['b']"""
    import binascii, zlib
    w, h = p['a']
    data = bytes(p['s'][0]['b'])
    r = rng or random.Random(0)
    for _ in range(20):
        flt = r.choice([None, None, 'AHx', 'ASCIIHexDecode', 'Fl']) if rng is not None else None
        raw = data
        if flt in ('AHx', 'ASCIIHexDecode'):
            raw = binascii.hexlify(data) + b'>'
        elif flt == 'Fl':
            raw = zlib.compress(data)
        sep = b'\n' if rng is None else r.choice([b'\n', b'\r\n', b'\n'])
        import re
        if not re.search(rb'EI[\s\x00]', raw + sep) and not (raw.endswith(b'\r') and sep == b'\n'):
            break
    else:
        flt, raw, sep = 'AHx', binascii.hexlify(data) + b'>', b'\n'
    d = {r.choice(['W', 'Width']): w, r.choice(['H', 'Height']): h, r.choice(['BPC', 'BitsPerComponent']): 8,
         r.choice(['CS', 'ColorSpace']): Name(r.choice(['G', 'DeviceGray']))}
    if flt:
        d[r.choice(['F', 'Filter'])] = r.choice([Name(flt), [Name(flt)]])
    return b'BI ' + b' '.join(name_bytes(k) + b' ' + ser(v) for k, v in d.items()) + r.choice([b' ', b'\n']) + b'ID ' + raw + sep + b'EI'


def render_op(p, rng):
    return b' '.join(render_parts(p, rng))


def render_parts(p, rng):
    """The tokens of an operator with its operands (an inline image counts as one)"""
    o = p['o']
    if o == 'EI':
        return [inline_bytes(p, rng)]
    if o in SPACED:
        return [SPACED[o].encode(), o.encode()]
    parts = []
    if o in MATRIX_OPS:
        parts += [num(v * 1000, rng) for v in p['a'][:4]] + [num(v, rng) for v in p['a'][4:]]
    elif o == 'Tf':
        parts += [name_bytes(p['n']), num(p['a'][0], rng)]
    elif o in ('Tj', "'"):
        parts.append(str_bytes(bytes(p['s'][0]['b']), rng))
    elif o == '"':
        parts += [num(v, rng) for v in p['a']] + [str_bytes(bytes(p['s'][0]['b']), rng)]
    elif o == 'TJ':
        parts += [b'['] + [num(e['v'] * 1000, rng) if e['k'] == 'n' else str_bytes(bytes(e['b']), rng) for e in p['s']] + [b']']
    elif o in ('CS', 'cs', 'Do'):
        parts.append(name_bytes(p['n']))
    else:
        parts += [num(v, rng) for v in p['a']]
    return parts + [o.encode()]


def render_prog(prog, rng):
    out = []
    for p in prog:
        out.append(render_op(p, rng))
    sep = [b'\n', b'\n', b' ', b'\r\n', b'  \t', b'\n% a comment ( [ <<\n'] if rng is not None else [b'\n']
    s = b''
    for t in out:
        s += t + (rng.choice(sep) if rng is not None else sep[0])
    return s


def split_tokens(prog, rng, k):
    """Cut anywhere between tokens into k streams (some may be empty), nothing but the cut between them."""
    toks = [t for p in prog for t in render_parts(p, rng)]
    cuts = sorted(rng.randrange(0, len(toks) + 1) for _ in range(k - 1))
    return [rng.choice([b' ', b'\n', b'\r\n', b' %x\n']).join(toks[a:b]) for a, b in zip([0] + cuts, cuts + [len(toks)])]


def split_prog(prog, rng):
    """Render into one or more content streams, cut between operators."""
    if rng is None or rng.random() < 0.5 or len(prog) < 2:
        return render_prog(prog, rng)
    k = rng.randint(1, min(4, len(prog) - 1))
    cuts = sorted(rng.sample(range(1, len(prog)), k))
    return [render_prog(prog[a:b], rng) for a, b in zip([0] + cuts, cuts + [len(prog)])]


def res_dict(pdf, res, rng, memo):
    fonts, cs, xo = {}, {}, {}
    for name, f in res['fonts'].items():
        fonts[name] = font_obj(pdf, f, memo)
    for name, c in res['cs'].items():
        if c['sp'] == 'ICCBased':
            cs[name] = [Name('ICCBased'), pdf.add(Stream(b'x', {'N': indirect(pdf, c['n'], rng)}))]
        elif c['sp'] == 'DeviceN':
            cs[name] = [Name('DeviceN'), [Name('c%d' % i) for i in range(c['n'])], Name('DeviceRGB'), 0]
        elif c['sp'] == 'Separation':
            cs[name] = [Name('Separation'), Name('Spot'), Name('DeviceRGB'), 0]
        else:
            cs[name] = Name(c['sp'])
    for name, x in res['xo'].items():
        key = ('xo', id(x))
        if key not in memo:
            if x['k'] == 'image':
                w, h = x['src']
                memo[key] = (pdf.add(Stream(bytes(x['data']), {
                    'Type': Name('XObject'), 'Subtype': indirect(pdf, Name('Image'), rng), 'Width': indirect(pdf, w, rng), 'Height': h,
                    'BitsPerComponent': 8, 'ColorSpace': Name('DeviceGray')})), x)
            else:
                d = {'Type': Name('XObject'), 'Subtype': indirect(pdf, Name('Form'), rng),
                     'BBox': indirect(pdf, corners([v / 1000 for v in x['bbox']], rng), rng)}
                if x['matrix'] != [1, 0, 0, 1, 0, 0]:
                    d['Matrix'] = indirect(pdf, x['matrix'][:4] + [v / 1000 for v in x['matrix'][4:]], rng)
                if x['own']:
                    d['Resources'] = indirect(pdf, res_dict(pdf, x['res'], rng, memo), rng)
                memo[key] = (pdf.add(Stream(render_prog(x['prog'], rng), d)), x)
        xo[name] = memo[key][0]
    d = {}
    if fonts:
        d['Font'] = fonts
    if cs:
        d['ColorSpace'] = cs
    if xo:
        d['XObject'] = xo
    return d


def font_obj(pdf, f, memo):
    key = ('font', f['name'])
    if key not in memo:
        first = min([i for i, w in enumerate(f['w']) if w >= 0] or [0])
        last = max([i for i, w in enumerate(f['w']) if w >= 0] or [0])
        desc = {'Type': Name('FontDescriptor'), 'FontName': Name(f['name']), 'Flags': 32, 'Ascent': f['desc'] + f['h'],
                'Descent': f['desc'], 'FontBBox': [0, f['desc'], 1000, f['desc'] + f['h']], 'MissingWidth': f['dw']}
        if f.get('nobbox'):
            desc['FontBBox'] = [0, 0, 0, 0]
        d = {'Type': Name('Font'), 'Subtype': Name(f.get('subtype', 'Type1')), 'BaseFont': Name(f['name']),
             'FirstChar': first, 'LastChar': last, 'Widths': f['w'][first:last + 1],
             'FontDescriptor': pdf.add(desc), 'Encoding': Name('WinAnsiEncoding')}
        memo[key] = (pdf.add(d), f)
    return memo[key][0]


def corners(b, rng):
    """the same box, given by any two opposite corners"""
    if rng is None or rng.random() < .7:
        return b
    b = list(b)
    if rng.random() < .6:
        b[0], b[2] = b[2], b[0]
    if rng.random() < .6:
        b[1], b[3] = b[3], b[1]
    return b


def indirect(pdf, v, rng, p=.1):
    if rng is None or rng.random() > p:
        return v
    if isinstance(v, list) and rng.random() < .5:
        return [pdf.add(x) if rng.random() < .5 else x for x in v]
    return pdf.add(v)


def build_case(page, rng, split=split_prog):
    pdf = PDF()
    tree = pdf.reserve()
    memo = {}
    content = split(page['prog'], rng)
    parts = content if isinstance(content, list) else [content]
    comp = rng is not None and rng.random() < 0.3
    refs = [pdf.add(flate(p) if comp else Stream(p)) for p in parts]
    d = {'Type': Name('Page'), 'Parent': tree, 'MediaBox': corners([v / 1000 for v in page['mb']], rng),
         'Contents': refs if isinstance(content, list) else refs[0], 'Resources': res_dict(pdf, page['res'], rng, memo)}
    if not page['prog'] and rng is not None:
        # a blank page
        d['Contents'] = rng.choice([[], None, pdf.add([]), d['Contents']])
        if rng.random() < .5:
            del d['Contents']
    if page['rot']:
        d['Rotate'] = page['rot']
    kid = pdf.add(d)
    pdf.add({'Type': Name('Pages'), 'Kids': [kid], 'Count': 1}, tree)
    pdf.root = pdf.add({'Type': Name('Catalog'), 'Pages': tree})
    return pdf.build(rng)


def world(page):
    """The nested page description as the flat tables the specification reads."""
    tabs, progs, seen = [], [], {}

    def table(res):
        if id(res) in seen:
            return seen[id(res)]
        tabs.append(None)
        idx = seen[id(res)] = len(tabs)
        fonts = {k: {x: f[x] for x in ('name', 'w', 'u', 'dw', 'desc', 'h')} for k, f in res['fonts'].items()}
        xo = {}
        for k, x in res['xo'].items():
            e = {'k': x['k'], 'src': x['src'], 'bbox': x['bbox'], 'matrix': x['matrix'], 'res': 0, 'prog': 0, 'data': x.get('data', [])}
            if x['k'] == 'form':
                if ('p', id(x)) not in seen:
                    progs.append(x['prog'])
                    seen[('p', id(x))] = len(progs)
                e['prog'] = seen[('p', id(x))]
                if x['own']:
                    e['res'] = table(x['res'])
            xo[k] = e
        tabs[idx - 1] = {'fonts': fonts, 'cs': res['cs'], 'xo': xo}
        return idx
    progs.append(page['prog'])
    table(page['res'])
    return {'mb': page['mb'], 'rot': page['rot'], 'res': tabs, 'progs': progs}


# ------------------------------------------------------------ observation
OFF_GRID = -1999999999


def q(v):
    """a float -> exact thousandths, or a value no expectation can equal"""
    if not isinstance(v, (int, float)):
        return OFF_GRID
    r = round(v * 1000)
    if abs(v * 1000 - r) > 0.02 or abs(r) > 1900000000:
        return OFF_GRID + 1
    return int(r)


def obs_bbox(b):
    return [q(b.x0), q(b.y0), q(b.x1), q(b.y1)]


def obs_color(c):
    return {'sp': '' if c.color_space is None else str(c.color_space.name), 'v': [q(x) for x in c.values]}


NOCOL = {'sp': '', 'v': []}


def item(k, bbox):
    return {'k': k, 'bbox': bbox, 'lw': 0, 'sc': NOCOL, 'nc': NOCOL, 'eo': False, 'pts': [], 'blocks': [], 'kids': [],
            'src': [], 'data': []}


def codepoint(t):
    return ord(t) if len(t) == 1 else (-2 if t == '' else -3)


def obs_item(it):
    from pdfmajor.interpreter.commands import (LTCurve, LTLine, LTHorizontalLine, LTVerticalLine, LTRect, LTImage,
                                               LTXObject, LTTextBlock)
    if it is None:
        return item('None', [0, 0, 0, 0])
    if isinstance(it, LTTextBlock):
        r = item('text', obs_bbox(it.bbox))
        for b in it:
            r['blocks'].append({'font': str(b.fontname), 'fs': q(b.textstate.fontsize), 'nc': obs_color(b.color),
                                'bbox': obs_bbox(b.bbox),
                                'ch': [{'u': codepoint(ch.get_text()), 'bbox': obs_bbox(ch.bbox)} for ch in b]})
        return r
    if isinstance(it, LTCurve):
        k = ('hline' if isinstance(it, LTHorizontalLine) else 'vline' if isinstance(it, LTVerticalLine) else
             'line' if isinstance(it, LTLine) else 'rect' if isinstance(it, LTRect) else 'curve')
        r = item(k, obs_bbox(it.bbox))
        r['lw'] = q(it.linewidth)
        r['sc'], r['nc'] = obs_color(it.stroke), obs_color(it.fill)
        r['eo'] = bool(it.evenodd)
        r['pts'] = [[p.method.value, [[q(pt.x), q(pt.y)] for pt in p.points]] for p in it.paths]
        return r
    if isinstance(it, LTImage):
        r = item('image', obs_bbox(it.bbox))
        r['src'] = [x if isinstance(x, int) else -1 for x in it.srcsize]
        r['data'] = list(it.stream.get_data())
        return r
    if isinstance(it, LTXObject):
        r = item('form', obs_bbox(it.bbox))
        r['kids'] = [obs_item(x) for x in it]
        return r
    return item('other', [0, 0, 0, 0])


def run_bytes(data, fn, suffix='.pdf'):
    """Write data to a scratch file, call fn(path)."""
    fd, path = tempfile.mkstemp(prefix='vpdf-', suffix=suffix)
    try:
        os.write(fd, data)
        os.close(fd)
        return fn(path)
    finally:
        os.unlink(path)


def observe_page(data):
    """items yielded by the only page, and the exception that ended it"""
    from pdfmajor.interpreter import PDFInterpreter

    def go(path):
        items, exc = [], 'none'
        try:
            for pg in PDFInterpreter(path):
                for it in pg:
                    items.append(obs_item(it))
        except Exception as e:
            exc = type(e).__name__
        return {'exc': exc, 'items': items}
    return run_bytes(data, go)


# ------------------------------------------------------------ random programs
UNIT_MATS = [[1, 0, 0, 1], [1, 0, 0, 1], [0, 1, -1, 0], [-1, 0, 0, -1], [0, -1, 1, 0], [1, 0, 0, -1], [-1, 0, 0, 1]]
SCALES = [[2, 0, 0, 2], [2, 0, 0, 1], [1, 0, 0, 3]]
SHEARS = [[1, 1, 0, 1], [1, 0, 2, 1], [2, 1, 1, 1], [1, -1, 1, 1]]

WIN = {i: i for i in range(32, 127) if i not in ()}


def mk_font(rng, name):
    u = [-1] * 256
    for i in range(33, 127):
        u[i] = i
    u[32] = 32
    w = [-1] * 256
    a, b = sorted(rng.sample(range(32, 127), 2))
    for i in range(a, b + 1):
        w[i] = rng.randrange(1, 11) * 100
    return {'name': name, 'w': w, 'u': u, 'dw': rng.choice([0, 300, 500, 700]), 'desc': -100 * rng.randrange(0, 4),
            'h': 100 * rng.randrange(5, 14), 'nobbox': rng.random() < 0.3,
            'subtype': rng.choice(['Type1', 'TrueType', 'MMType1'])}


class Gen:
    def __init__(self, rng, focus=None):
        self.r = rng
        self.scalings = 0
        self.focus = focus or {}
        self.fontn = 0

    def coord(self):
        r = self.r
        return r.choice([r.randrange(-100, 101) * 1000, r.randrange(-100, 101) * 1000,
                         r.randrange(-200, 201) * 500, r.randrange(-400, 401) * 250])

    def matrix(self, axis_only=False):
        r = self.r
        k = r.random()
        if k < 0.6 or self.scalings >= 3:
            m = r.choice(UNIT_MATS)
        elif k < 0.8 or axis_only:
            m = r.choice(SCALES)
            self.scalings += 1
        else:
            m = r.choice(SHEARS)
            self.scalings += 1
        return m + [self.coord(), self.coord()]

    def resources(self, depth):
        r = self.r
        res = {'fonts': {}, 'cs': {}, 'xo': {}}
        for i in range(r.randint(1, 3)):
            self.fontn += 1
            res['fonts']['F%d' % i] = mk_font(r, 'TestFont%d' % self.fontn)
        for nm, c in [('CsI', {'sp': 'ICCBased', 'n': r.choice([1, 3, 4])}), ('CsN', {'sp': 'DeviceN', 'n': r.choice([2, 5])}),
                      ('CsS', {'sp': 'Separation', 'n': 1}), ('CsR', {'sp': 'DeviceRGB', 'n': 3})]:
            if r.random() < 0.7:
                res['cs'][nm] = c
        if r.random() < 0.6 + self.focus.get('form', 0):
            iw, ih = r.randint(1, 9), r.randint(1, 9)
            res['xo']['Im0'] = {'k': 'image', 'src': [iw, ih], 'data': [r.randrange(256) for _ in range(iw * ih)], 'bbox': [0, 0, 0, 0], 'matrix': [1, 0, 0, 1, 0, 0],
                                'own': False, 'res': {'fonts': {}, 'cs': {}, 'xo': {}}, 'prog': []}
        if depth > 0:
            for i in range(r.randint(0, 2) + (1 if self.focus.get('form') else 0)):
                b = [self.coord() for _ in range(4)]
                own = r.random() < 0.7
                fres = self.resources(depth - 1) if own else res
                mat = self.matrix(axis_only=True) if r.random() < 0.6 else [1, 0, 0, 1, 0, 0]
                x = {'k': 'form', 'src': [], 'bbox': b, 'matrix': mat, 'own': own,
                     'res': fres if own else {'fonts': {}, 'cs': {}, 'xo': {}}, 'prog': None}
                x['prog'] = self.program(fres, r.randint(1, 10), forms=own)
                if r.random() < 0.3:     # unbalanced on purpose: must not leak into the caller
                    x['prog'] = x['prog'] + [op('q'), op('RG', [0, 1000, 0])]
                res['xo']['Fm%d' % i] = x
        return res

    def show_bytes(self, font, allow_bad=False):
        r = self.r
        n = r.randint(1, 6)
        return [r.choice([32, 40, 41, 92] + list(range(33, 127)) * 1) for _ in range(n)]

    def text(self, res):
        r = self.r
        out = [op('BT')]
        fonts = list(res['fonts'])
        if r.random() < 0.9 or not self.fontset:
            out.append(self.tf(fonts))
        for _ in range(r.randint(1, 7)):
            k = r.random()
            if k < 0.14:
                out.append(op('Td', [self.coord(), self.coord()]))
            elif k < 0.22:
                out.append(op('TD', [self.coord(), self.coord()]))
            elif k < 0.32:
                out.append(op('Tm', r.choice(UNIT_MATS + [[2, 0, 0, 2]]) + [self.coord(), self.coord()]))
            elif k < 0.40:
                out.append(op('T*'))
            elif k < 0.58:
                out.append(self.tparam())
            elif k < 0.62:
                out.append(self.tf(fonts))
            elif k < 0.66:
                out.append(self.color(res))
            else:
                out.append(self.show())
        if r.random() < 0.9:
            out.append(self.show())
        out.append(op('ET'))
        return out

    def tf(self, fonts):
        r = self.r
        self.fontset = True
        return op('Tf', [r.choice([1000, 8000, 10000, 12000, 24000, 10500, 500])], r.choice(fonts))

    def tparam(self):
        r = self.r
        o = r.choice(['Tc', 'Tw', 'Tz', 'TL', 'Ts'])
        v = {'Tc': r.randrange(-10, 11) * 500, 'Tw': r.randrange(-10, 11) * 500, 'Tz': r.choice([50, 100, 200]) * 1000,
             'TL': r.randrange(-20, 21) * 500, 'Ts': r.randrange(-10, 11) * 500}[o]
        return op(o, [v])

    def show(self):
        r = self.r
        k = r.random()
        b = self.show_bytes(None)
        if r.random() < 0.06:
            b = []
        if k < 0.4:
            return op('Tj', s=[{'k': 's', 'v': 0, 'b': b}])
        if k < 0.7:
            els = []
            for _ in range(r.randint(0 if r.random() < .2 else 1, 5)):
                if r.random() < 0.5:
                    els.append({'k': 'n', 'v': r.randrange(-20, 21) * 20, 'b': []})
                else:
                    els.append({'k': 's', 'v': 0, 'b': self.show_bytes(None) if r.random() < .95 else []})
            return op('TJ', s=els)
        if k < 0.85:
            return op("'", s=[{'k': 's', 'v': 0, 'b': b}])
        return op('"', [r.randrange(-5, 6) * 500, r.randrange(-5, 6) * 500], s=[{'k': 's', 'v': 0, 'b': b}])

    def color(self, res):
        r = self.r
        o = r.choice(['G', 'g', 'RG', 'rg', 'K', 'k'])
        n = {'g': 1, 'rg': 3, 'k': 4}[o.lower()]
        return op(o, [r.randrange(0, 6) * 200 for _ in range(n)])

    def space_color(self, res):
        r = self.r
        spaces = dict({k: {'n': v} for k, v in {'DeviceGray': 1, 'DeviceRGB': 3, 'DeviceCMYK': 4, 'CalRGB': 3,
                                                'Lab': 3, 'CalGray': 1}.items()})
        spaces.update(res['cs'])
        out = []
        s = None
        nm = r.choice(list(spaces))
        st = r.random() < 0.5
        out.append(op('CS' if st else 'cs', n=nm))
        if r.random() < 0.3:    # select the other one in between
            nm2 = r.choice(list(spaces))
            out.append(op('cs' if st else 'CS', n=nm2))
        if r.random() < 0.2:
            out += [op('q'), op('Q')]
        for _ in range(r.randint(1, 2)):
            out.append(op(r.choice(['SC', 'SCN'] if st else ['sc', 'scn']),
                          [r.randrange(0, 6) * 200 for _ in range(spaces[nm]['n'])]))
        return out

    def path(self):
        r = self.r
        c = self.coord
        k = r.random()
        out = []
        if k < 0.15:
            x, y = c(), c()
            x1, y1 = r.choice([(x, c()), (c(), y), (c(), c())])
            out = [op('m', [x, y]), op('l', [x1, y1])]
        elif k < 0.35:
            out = [op('re', [c(), c(), c(), c()])]
        elif k < 0.5:
            x, y, x1, y1 = c(), c(), c(), c()
            pts = r.choice([[(x, y), (x1, y), (x1, y1), (x, y1)], [(x, y), (x, y1), (x1, y1), (x1, y)],
                            [(x, y), (x1, y), (x1, y1), (c(), c())], [(x, y), (x1, y1), (x1, y), (x, y1)]])
            out = [op('m', pts[0])] + [op('l', p) for p in pts[1:]]
            if r.random() < 0.7:
                out.append(op('h'))
        else:
            for _ in range(r.randint(1, 3)):
                if r.random() < 0.2:
                    out.append(op('re', [c(), c(), c(), c()]))
                    continue
                out.append(op('m', [c(), c()]))
                for _ in range(r.randint(0, 4)):
                    o = r.choice('llcvy')
                    out.append(op(o, [c() for _ in range({'l': 2, 'c': 6, 'v': 4, 'y': 4}[o])]))
                if r.random() < 0.5:
                    out.append(op('h'))
        if r.random() < 0.15:
            out.append(op(r.choice(['W', 'W*'])))
        out.append(op(r.choice(['S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*', 'n'])))
        return out

    def program(self, res, n, forms=True):
        r = self.r
        out = []
        self.fontset = False
        W = {'text': 3, 'path': 4, 'q': 3, 'Q': 3, 'cm': 2, 'color': 3, 'space': 1, 'w': 1, 'inert': 1, 'do': 2, 'inline': 0, 'tparam': 0}
        W.update({k: v for k, v in self.focus.items() if k in W})
        if not forms:
            W['do'] = 0
        keys, ws = list(W), list(W.values())
        depth = 0
        for _ in range(n):
            k = r.choices(keys, ws)[0]
            if k == 'text':
                out += self.text(res)
            elif k == 'path':
                out += self.path()
            elif k == 'q':
                out.append(op('q'))
                fs = self.fontset
                depth += 1
            elif k == 'Q':
                out.append(op('Q'))
                self.fontset = False
                depth = max(0, depth - 1)
            elif k == 'cm':
                out.append(op('cm', self.matrix(axis_only=not self.focus.get('shear'))))
            elif k == 'color':
                out.append(self.color(res))
            elif k == 'space':
                out += self.space_color(res)
            elif k == 'w':
                out.append(op('w', [r.randrange(0, 20) * 500]))
            elif k == 'tparam':
                if r.random() < .3:
                    out.append(self.tf(list(res['fonts'])))
                else:
                    out.append(self.tparam())
            elif k == 'inert':
                out.append(op(r.choice(['J', 'j', 'M', 'd', 'ri', 'i', 'Tr', 'gs', 'BMC', 'EMC', 'MP', 'BX', 'EX', 'xyzzy'])))
            elif k == 'inline':
                iw, ih = r.randint(1, 5), r.randint(1, 5)
                al = r.choice([b'EI \n\rx\x00(', bytes(range(256)), b'EIQ\n'])
                out.append(op('EI', [iw, ih], s=[{'k': 's', 'v': 0, 'b': [r.choice(al) for _ in range(iw * ih)]}]))
            elif k == 'do':
                xs = [x for x in res['xo'] if res['xo'][x].get('prog') is not None]
                if xs:
                    out.append(op('Do', n=r.choice(xs)))
        return out

    def page(self, n=None):
        r = self.r
        res = self.resources(self.focus.get('depth', 1))
        if self.focus.get('mb', True):
            x, y = r.choice([(0, 0), (0, 0), (self.coord(), self.coord())])
            mb = [x, y, x + r.randrange(1, 800) * 1000, y + r.randrange(1, 800) * 1000]
            rot = r.choice([0, 0, 90, 180, 270])
        else:
            mb, rot = [0, 0, 600000, 800000], 0
        prog = self.program(res, n or r.randint(2, 14))
        return {'mb': mb, 'rot': rot, 'res': res, 'prog': prog}
