"""Documents with fonts, and the characters that showing codes yields (for SimpleFont.tla and CidFont.tla)."""
import gzip, os, pickle, random, re, struct, tempfile
from pdfgen import PDF, Name, Ref, Stream, Raw, flate
import vlib
from interp import obs_bbox, run_bytes

GLYPHS = None


def glyphs():
    global GLYPHS
    if GLYPHS is None:
        import json
        with open(os.path.join(vlib.SPECS, 'glyphs.json')) as fp:
            GLYPHS = json.load(fp)
    return GLYPHS


# ------------------------------------------------------------ ToUnicode maps
def hexstr(r, b):
    s = b.hex()
    if r.random() < .3:
        s = s.upper()
    if r.random() < .1 and len(s) > 2:
        s = s[:2] + ' ' + s[2:]
    return '<%s>' % s


def units_bytes(u):
    return b''.join(x.to_bytes(2, 'big') for x in u)


def tounicode(r, entries, size):
    """entries of ToUnicode.tla as a CMap file, in order; codes of `size` bytes (0: as many as each needs)"""
    out = []
    if r.random() < .8:
        out += [r.choice(['/CIDInit /ProcSet findresource begin 12 dict begin', '%!PS-Adobe-3.0 Resource-CMap\n/CIDInit /ProcSet findresource begin\n12 dict begin']), 'begincmap']
        out += [r.choice(['/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def',
                          '/CIDSystemInfo 3 dict dup begin /Registry (Adobe) def /Ordering (UCS) def /Supplement 0 def end def']),
                '/CMapName /Adobe-Identity-UCS def', '/CMapType 2 def']
        end = ['endcmap', 'CMapName currentdict /CMap defineresource pop end end']
    else:
        end = []
    if r.random() < .7:
        out += ['1 begincodespacerange', '<%s> <%s>' % ('00' * size, 'ff' * size), 'endcodespacerange'] if size else [
            '3 begincodespacerange', '<00> <80>', '<8100> <9fff>', '<e08000> <e183ff>', 'endcodespacerange']
    i = 0
    while i < len(entries):
        kind = 'bfchar' if entries[i]['k'] == 'char' else 'bfrange'
        k = i
        while k < len(entries) and (entries[k]['k'] == 'char') == (kind == 'bfchar') and k - i < 100 and (k == i or r.random() < .8):
            k += 1
        out.append('%d begin%s' % (k - i, kind))
        for e in entries[i:k]:
            n = r.choice([size, size, 2]) if size == 1 else size or max(1, (e['lo'].bit_length() + 7) // 8)
            lo, hi = e['lo'].to_bytes(n, 'big'), e['hi'].to_bytes(n, 'big')
            if e['k'] == 'char':
                out.append(hexstr(r, lo) + r.choice([' ', '', '\n']) + hexstr(r, units_bytes(e['units'])))
            elif e['k'] == 'range':
                out.append(hexstr(r, lo) + ' ' + hexstr(r, hi) + r.choice([' ', '']) + hexstr(r, units_bytes(e['units'])))
            else:
                out.append(hexstr(r, lo) + ' ' + hexstr(r, hi) + ' [' + ' '.join(hexstr(r, units_bytes(u)) for u in e['list']) + ']')
        out.append('end' + kind)
        if r.random() < .1:
            out.append('% a comment')
        i = k
    return ('\n'.join(out + end) + '\n').encode()


def stream(r, pdf, data):
    return pdf.add(flate(data) if r.random() < .5 else Stream(data))


def maybe_ref(r, pdf, v, p=.2):
    return pdf.add(v) if r.random() < p else v


# ------------------------------------------------------------ simple fonts
def glyph_name(cs, suffix):
    return '_'.join(c['s'] for c in cs) + suffix


def tenths(n):
    return n // 10 if n % 10 == 0 else n / 10


def simple_font(r, pdf, f):
    """The font object for a font of SimpleFont.tla"""
    d = {'Type': Name('Font')}
    t3 = f['scale'] != 1 or f.get('type3')
    base = f['std'] or r.choice(['ABCDEF+Foo', 'Bar', 'Foo,Bold'])
    d['Subtype'] = Name('Type3') if t3 else Name(r.choice(['Type1', 'Type1', 'TrueType', 'MMType1']))
    if t3:
        d.update({'FontBBox': [0, 0, 1000, 1000], 'CharProcs': {}, 'FontMatrix': [f['scale'] / 1000, 0, 0, f['scale'] / 1000, 0, 0]})
    else:
        d['BaseFont'] = Name(base)
    if not t3 and not f['std'] or f['missing'] or r.random() < .3:
        desc = {'Type': Name('FontDescriptor'), 'FontName': Name(base), 'Flags': 32, 'Ascent': 800, 'Descent': -200, 'FontBBox': [0, -200, 1000, 800]}
        if f['missing'] or r.random() < .3:
            desc['MissingWidth'] = maybe_ref(r, pdf, tenths(f['missing']))
        d['FontDescriptor'] = maybe_ref(r, pdf, desc, .8)
    if f['haswidths']:
        if f['first'] or r.random() < .5:
            d['FirstChar'] = maybe_ref(r, pdf, f['first'])
        d['LastChar'] = f['first'] + len(f['widths']) - 1
        d['Widths'] = maybe_ref(r, pdf, [maybe_ref(r, pdf, tenths(w), .05) for w in f['widths']])
    enc = {}
    if f['base'] != 'StandardEncoding' or r.random() < .3:
        enc['BaseEncoding'] = maybe_ref(r, pdf, Name(f['base']), .1)
    if f['diffs']:
        enc['Differences'] = maybe_ref(r, pdf, [x['n'] if x['k'] == 'at' else maybe_ref(r, pdf, Name(glyph_name(x['cs'], x.get('suffix', ''))), .03) for x in f['diffs']])
    if f['diffs'] or r.random() < .2:
        if r.random() < .5:
            enc['Type'] = Name('Encoding')
        d['Encoding'] = maybe_ref(r, pdf, enc, .5)
    elif 'BaseEncoding' in enc:
        d['Encoding'] = enc['BaseEncoding']
    if f['bf'] or f.get('emptymap'):
        d['ToUnicode'] = stream(r, pdf, tounicode(r, f['bf'], 1))
    return d


def document(pdf, font, strings, fs=10, x=0, y=0, before=None):
    """bytes of a document whose (last) page shows the strings; before: a font and strings shown on a page before"""
    def pages():
        if before:
            text = b''.join(b'<%s> Tj\n' % s.hex().encode() for s in before[1])
            yield pdf.add({'Type': Name('Page'), 'Parent': tree, 'MediaBox': [0, 0, 1000, 1000], 'Resources': {'Font': {'F0': pdf.add(before[0])}},
                           'Contents': pdf.add(Stream(b'BT /F0 7 Tf\n%sET\n' % text))})
        yield page
    show = b''.join(b'<%s> Tj\n' % s.hex().encode() for s in strings)
    tree = pdf.reserve()
    page = pdf.add({'Type': Name('Page'), 'Parent': tree, 'MediaBox': [0, 0, 1000, 1000], 'Resources': {'Font': {'F0': pdf.add(font)}},
                    'Contents': pdf.add(Stream(b'BT /F0 %d Tf %d %d Td\n%sET\n' % (fs, x, y, show)))})
    kids = list(pages())
    pdf.add({'Type': Name('Pages'), 'Kids': kids, 'Count': len(kids)}, tree)
    pdf.root = pdf.add({'Type': Name('Catalog'), 'Pages': tree})
    return pdf.build()


def characters(data, ignore):
    """the characters of the last page: [text, x0, y0, x1, y1] in thousandths of a point, and the exception"""
    from pdfmajor.interpreter import PDFInterpreter
    from pdfmajor.interpreter.commands import LTTextBlock

    def go(path):
        out, exc = [], 'none'
        try:
            for page in PDFInterpreter(path, ignore_bad_chars=ignore):
                out = []
                for it in page:
                    if isinstance(it, LTTextBlock):
                        out += [[ch.get_text()] + obs_bbox(ch.bbox) for block in it for ch in block]
        except Exception as e:
            exc = type(e).__name__
        return out, exc
    return run_bytes(data, go)


def observe_simple(case):
    r = random.Random(case['seed'])
    pdf = PDF()
    fd = simple_font(r, pdf, case['f'])
    b = bytes(case['codes'])
    cut = sorted(r.sample(range(len(b) + 1), min(len(b) + 1, r.randrange(0, 3))))
    out, exc = characters(document(pdf, fd, [b[i:j] for i, j in zip([0] + cut, cut + [len(b)])], 10, case['x0'] // 1000), case['ignore'])
    return {'os': [{'t': [ord(x) for x in o[0]], 'x0': o[1], 'x1': o[3]} for o in out], 'exc': exc}


# ------------------------------------------------------------ random simple fonts
def component(r):
    k = r.choice(['agl'] * 5 + ['uni', 'uni', 'u', '?'])
    if k == 'agl':
        n = r.choice(sorted(glyphs())) if r.random() < .6 else r.choice(['A', 'B', 'space', 'eacute', 'fi', 'Euro', 'alpha', 'one', 'quotesingle', 'dalethatafpatah'])
        if '.' in n or '_' in n:
            n = 'A'
        return {'k': k, 's': n, 'v': []}
    if k == 'uni':
        v = [unit(r) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        return {'k': k, 's': 'uni' + ''.join('%04X' % x for x in v), 'v': v}
    if k == 'u':
        v = r.choice([unit(r), 0x10000 + r.randrange(0x100000), 0x10ffff])
        return {'k': k, 's': 'u%04X' % v, 'v': [v]}
    return {'k': '?', 's': r.choice(['foo', 'nosuchglyph', 'Xyzzy', 'glyph', 'uniQ', '\xff\xfe', '']), 'v': []}


def unit(r):
    """a character in one UTF-16 unit"""
    while True:
        v = r.choice([r.randrange(32, 127), r.randrange(0x3000), r.randrange(0x10000)])
        if not 0xd800 <= v < 0xe000:
            return v


def name_item(r):
    cs = [component(r)] if r.random() < .8 else [component(r) for _ in range(r.choice([2, 2, 3]))]
    if cs == [{'k': '?', 's': '', 'v': []}]:
        return {'k': 'name', 'n': 0, 'cs': [{'k': '?', 's': '', 'v': []}], 'suffix': '.notdef'}
    if len(cs) > 1:
        cs = [c if c['s'] else component(random.Random(0)) for c in cs]
        if any(c['s'].startswith('\xff') for c in cs):
            cs = cs[:1]
    if any(c['k'] == '?' for c in cs):
        # names that are not known but have a number in them may be guessed at
        cs = [c for c in cs if not re.search('[0-9]', c['s'])]
    return {'k': 'name', 'n': 0, 'cs': cs, 'suffix': r.choice(['', '', '', '.sc', '.alt'])}


def diffs(r, n):
    out = []
    for _ in range(n):
        if r.random() < .4:
            out.append({'k': 'at', 'n': r.choice([r.randrange(256), r.randrange(60, 70), 0, 255]), 'cs': [], 'suffix': ''})
        else:
            out.append(name_item(r))
    return out


def target(r):
    """UTF-16 units of some text"""
    out = []
    for _ in range(r.choice([1, 1, 1, 1, 2, 3, 0])):
        if r.random() < .2:
            v = r.randrange(0x100000)
            out += [0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff)]
        else:
            out.append(unit(r))
    return out


def bf_entry(r, maxcode, codes=None):
    k = r.choice(['char', 'char', 'range', 'array'])
    lo = r.choice(codes) if codes and r.random() < .7 else r.randrange(maxcode + 1)
    if k == 'char':
        return {'k': k, 'lo': lo, 'hi': lo, 'units': target(r), 'list': []}
    n = r.choice([0, 1, 2, 5, r.randrange(30)])
    lo = min(lo, maxcode)
    hi = min(maxcode, lo + n, lo | 255)
    if k == 'array':
        return {'k': k, 'lo': lo, 'hi': hi, 'units': [], 'list': [target(r) for _ in range(hi - lo + 1)]}
    while True:
        u = target(r)
        # counting up may not leave the last unit, nor turn it into half a character or back
        if u and (u[-1] + hi - lo < 0xd800 or 0xdc00 <= u[-1] < 0xe000 and u[-1] + hi - lo < 0xe000 or u[-1] >= 0xe000 and u[-1] + hi - lo < 0x10000):
            return {'k': k, 'lo': lo, 'hi': hi, 'units': u, 'list': []}


STD14 = ['Courier', 'Courier-Bold', 'Courier-BoldOblique', 'Courier-Oblique', 'Helvetica', 'Helvetica-Bold', 'Helvetica-BoldOblique', 'Helvetica-Oblique',
         'Times-Bold', 'Times-BoldItalic', 'Times-Italic', 'Times-Roman']


def random_simple(r):
    f = {'base': r.choice(['StandardEncoding', 'MacRomanEncoding', 'WinAnsiEncoding', 'PDFDocEncoding']),
         'diffs': diffs(r, r.choice([0, 0, 1, 3, 8, 30])), 'bf': [bf_entry(r, 255) for _ in range(r.choice([0, 0, 1, 3, 10, 40]))],
         'first': 0, 'widths': [], 'haswidths': False, 'missing': r.choice([0, 0, 2500, 3005]), 'std': r.choice(['', '', '', r.choice(STD14)]),
         'scale': r.choice([1, 1, 1, 1, 10])}
    if r.random() < .8:
        f['haswidths'] = True
        f['first'] = r.choice([0, 1, 32, 65, 200, 255])
        f['widths'] = [r.choice([0, 2500, 5000, 3335, r.randrange(10000)]) for _ in range(r.choice([0, 1, 3, 30, 256]))][:256 - f['first']]
    if f['scale'] != 1:
        f['std'] = ''
    f['emptymap'] = r.random() < .1
    return f


def codes_for(r, f, n):
    pool = [e['lo'] + i for e in f['bf'] for i in range(e['hi'] - e['lo'] + 1)]
    at = 0
    for d in f['diffs']:
        if d['k'] == 'at':
            at = d['n']
        else:
            pool.append(at)
            at += 1
    pool += [f['first'] - 1, f['first'], f['first'] + len(f['widths']) - 1, f['first'] + len(f['widths'])]
    pool = [c for c in pool if 0 <= c <= 255]
    return [r.choice(pool) if pool and r.random() < .6 else r.choice([r.randrange(256), r.randrange(32, 127)]) for _ in range(n)]


# ------------------------------------------------------------ composite fonts
def cmap_text(r, entries, wmode, name):
    out = ['/CIDInit /ProcSet findresource begin', '12 dict begin', 'begincmap']
    use = [e for e in entries if e['k'] == 'use']
    out += ['/%s usecmap' % e['name'] for e in use]
    out += ['/CIDSystemInfo << /Registry (Adobe) /Ordering (Test) /Supplement 0 >> def', '/CMapName /%s def' % name, '/CMapType 1 def']
    if wmode or r.random() < .5:
        out.append('/WMode %d def' % wmode)
    out += ['2 begincodespacerange', '<00> <80>', '<8140> <fefe>', 'endcodespacerange']
    rest = [e for e in entries if e['k'] != 'use']
    i = 0
    while i < len(rest):
        k = i
        while k < len(rest) and rest[k]['k'] == rest[i]['k'] and (k == i or r.random() < .8):
            k += 1
        kind = 'cid' + rest[i]['k']
        out.append('%d begin%s' % (k - i, kind))
        for e in rest[i:k]:
            out.append(' '.join([hexstr(r, bytes(e['lo']))] + ([hexstr(r, bytes(e['hi']))] if kind == 'cidrange' else []) + [str(e['cid'])]))
        out.append('end' + kind)
        i = k
    return ('\n'.join(out + ['endcmap', 'CMapName currentdict /CMap defineresource pop', 'end', 'end']) + '\n').encode()


def code_tree(entries):
    tree = {}
    for e in entries:
        if e['k'] == 'use':
            def merge(a, b):
                for k, v in b.items():
                    if isinstance(v, dict):
                        merge(a.setdefault(k, {}), v)
                    else:
                        a[k] = v
            merge(tree, code_tree(e['of']))
            continue
        lo, hi = e['lo'], e['hi'] if e['k'] == 'range' else e['lo']
        for i, last in enumerate(range(lo[-1], hi[-1] + 1)):
            d = tree
            for b in lo[:-1]:
                d = d.setdefault(b, {})
            d[last] = e['cid'] + i
    return tree


def truetype(r, ts):
    """a font file with a cmap table of the subtables [plat, enc, map]"""
    def format0(t):
        g = [0] * 256
        for x in t['map']:
            g[chr(x['ch']).encode('mac_roman')[0] if t['plat'] == 1 else x['ch']] = x['gid']
        return struct.pack('>HHH', 0, 262, 0) + bytes(g)

    def format4(t):
        m = {x['ch']: x['gid'] for x in t['map']}
        segs, glyphs = [], []
        for ch in sorted(m):
            if segs and segs[-1][1] == ch - 1 and r.random() < .8:
                segs[-1][1] = ch
            elif segs and ch - segs[-1][1] < 4 and r.random() < .5:
                segs[-1][1] = ch            # a segment with a gap
            else:
                segs.append([ch, ch])
        if not segs or segs[-1][1] != 0xffff:
            segs.append([0xffff, 0xffff])
        n = len(segs)
        rows = []
        for i, (a, z) in enumerate(segs):
            gids = [m.get(ch, 0) for ch in range(a, z + 1)]
            if all(g for g in gids) and all(g == gids[0] + k for k, g in enumerate(gids)) and r.random() < .6 or a == 0xffff and gids == [0]:
                rows.append((a, z, (gids[0] - a) & 0xffff, 0))
            else:
                delta = r.choice([0, r.randrange(0x10000)])
                rows.append((a, z, delta, 2 * (n - i + len(glyphs))))
                glyphs += [(g - delta) & 0xffff if g else 0 for g in gids]
                if any(g and (g - delta) & 0xffff == 0 for g in gids):      # a glyph cannot be written as 0
                    glyphs[-len(gids):] = gids
                    rows[-1] = (a, z, 0, rows[-1][3])
        body = struct.pack('>HHHH', 2 * n, 0, 0, 0) + b''.join(struct.pack('>H', x[1]) for x in rows) + b'\0\0' + b''.join(struct.pack('>H', x[0]) for x in rows)
        body += b''.join(struct.pack('>H', x[2]) for x in rows) + b''.join(struct.pack('>H', x[3]) for x in rows) + b''.join(struct.pack('>H', g) for g in glyphs)
        return struct.pack('>HHH', 4, 6 + len(body), 0) + body

    def format12(t):
        return struct.pack('>HHLLL', 12, 0, 16, 0, 0)
    head, body = b'', b''
    parts = []
    for t in ts:
        small = all((x['ch'] < 256 or t['plat'] == 1) and x['gid'] < 256 for x in t['map'])
        parts.append((t['plat'], t['enc'], format0(t) if t['plat'] == 1 or small and r.random() < .4 else format4(t)))
    if r.random() < .2:
        parts.append((3, 10, format12(None)))
    for plat, enc, b in parts:
        head += struct.pack('>HHL', plat, enc, 4 + 8 * len(parts) + len(body))
        body += b
    cmap = struct.pack('>HH', 0, len(parts)) + head + body
    tables = [(b'cmap', cmap), (b'head', b'\0' * 54)]
    if r.random() < .5:
        tables.reverse()
    out, data, at = b'\0\1\0\0' + struct.pack('>HHHH', len(tables), 0, 0, 0), b'', 12 + 16 * len(tables)
    for n, b in tables:
        out += struct.pack('>4sLLL', n, 0, at + len(data), len(b))
        data += b + b'\0' * (-len(b) % 4)
    return out + data


def metric_items(r, pdf, items):
    return [maybe_ref(r, pdf, [maybe_ref(r, pdf, tenths(x), .05) for x in i['list']], .1) if i['k'] == 'list' else i['n'] if i['cid'] else maybe_ref(r, pdf, tenths(i['n']), .05) for i in items]


def composite_font(r, pdf, f, seed, cmapdir):
    v = f['cm']['wmode'] == 1
    desc = {'Type': Name('FontDescriptor'), 'FontName': Name('Foo'), 'Flags': 4, 'Ascent': 800, 'Descent': -200, 'FontBBox': [0, -200, 1000, 800]}
    if f['missing']:
        desc['MissingWidth'] = tenths(f['missing'])
    if f['hasttf']:
        desc['FontFile2'] = stream(r, pdf, truetype(r, f['ttf']))
    sub = {'Type': Name('Font'), 'Subtype': Name(r.choice(['CIDFontType0', 'CIDFontType2'])), 'BaseFont': Name('Foo'), 'FontDescriptor': maybe_ref(r, pdf, desc, .8)}
    order = 'Test%d' % seed if f['hascoll'] else r.choice(['Identity', 'UCS']) if f['hasttf'] else 'Identity'
    sub['CIDSystemInfo'] = maybe_ref(r, pdf, {'Registry': b'Adobe', 'Ordering': order.encode(), 'Supplement': 0}, .3)
    if f['dw'] != 10000 or r.random() < .3:
        sub['DW'] = maybe_ref(r, pdf, tenths(f['dw']))
    if f['w'] or r.random() < .2:
        sub['W'] = maybe_ref(r, pdf, metric_items(r, pdf, f['w']), .3)
    if f['dw2'] != [8800, -10000] or r.random() < .3:
        sub['DW2'] = maybe_ref(r, pdf, [tenths(x) for x in f['dw2']])
    if f['w2'] or r.random() < .2:
        sub['W2'] = maybe_ref(r, pdf, metric_items(r, pdf, f['w2']), .3)
    top = {'Type': Name('Font'), 'Subtype': Name('Type0'), 'BaseFont': Name('Foo'), 'DescendantFonts': maybe_ref(r, pdf, [maybe_ref(r, pdf, sub, .8)], .2)}

    def write(name, d):
        with gzip.open(os.path.join(cmapdir, name + '.pickle.gz'), 'wb') as fp:
            fp.write(pickle.dumps(d))
    if f['cm']['kind'] == 'identity':
        top['Encoding'] = maybe_ref(r, pdf, Name('Identity-V' if v else 'Identity-H'))
    else:
        es = f['cm']['entries']
        for i, e in enumerate(es):
            if e['k'] == 'use':
                e['name'] = 'Use%d-%d' % (seed, i)
                write(e['name'], {'CODE2CID': code_tree(e['of']), 'IS_VERTICAL': False})
        if 'name' in f['cm']:
            top['Encoding'] = Name(f['cm']['name'])
        elif r.random() < .4:
            top['Encoding'] = Name('Map%d' % seed)
            write('Map%d' % seed, {'CODE2CID': code_tree(es), 'IS_VERTICAL': v})
        else:
            d = {'Type': Name('CMap'), 'CMapName': Name('Own'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Test', 'Supplement': 0}}
            inside = v
            if v and r.random() < .3:
                d['WMode'], inside = 1, False
            text = cmap_text(r, es, 1 if inside else 0, 'Own') if inside or not v else cmap_text(r, es, 1, 'Own')
            s = flate(text) if r.random() < .5 else Stream(text)
            s.d.update(d)
            top['Encoding'] = pdf.add(s)
    if f['hascoll']:
        t = [{x['cid']: ''.join(map(chr, x['v'])) for x in f[k]} for k in ('collh', 'collv')]
        write('to-unicode-Adobe-' + order, {'CID2UNICHR_H': t[0], 'CID2UNICHR_V': t[1]})
    if f['hasbf']:
        top['ToUnicode'] = stream(r, pdf, tounicode(r, f['bf'], 2 if f['cm']['kind'] == 'identity' else 0))
    return top


def observe_composite(case):
    r = random.Random(case['seed'])
    pdf = PDF()
    old = os.environ.get('CMAP_PATH')
    with tempfile.TemporaryDirectory(prefix='vcmap-') as d:
        os.environ['CMAP_PATH'] = d
        try:
            before = None
            if 'before' in case:
                before = composite_font(r, pdf, case['before'], case['seed'], d), [bytes(s) for s in case['strs']]
            fd = composite_font(r, pdf, case['f'], case['seed'], d)
            out, exc = characters(document(pdf, fd, [bytes(s) for s in case['strs']], 10, case['x0'] // 1000, case['y0'] // 1000, before), case['ignore'])
        finally:
            if old is None:
                del os.environ['CMAP_PATH']
            else:
                os.environ['CMAP_PATH'] = old
    return {'os': [{'t': [ord(x) for x in o[0]], 'x0': o[1], 'y0': o[2], 'x1': o[3], 'y1': o[4]} for o in out], 'exc': exc}


# ------------------------------------------------------------ random composite fonts
def rcode(r):
    k = r.choice([1, 1, 2, 2, 2, 3])
    return [[r.choice([0x20, 0x41, 0x7f, r.randrange(0x81)])], [r.choice([0x81, 0x81, r.randrange(0x81, 0xa0)]), r.choice([0x40, 0x80, 0xff, r.randrange(256)])],
            [r.choice([0xe0, 0xe1]), r.randrange(0x80, 0x84), r.randrange(256)]][k - 1]


def cm_entry(r, deep=True):
    k = r.choice(['char', 'range', 'range'] + ['use'] * deep)
    cid = r.choice([r.randrange(300), r.randrange(65000)])
    if k == 'use':
        return {'k': k, 'lo': [], 'hi': [], 'cid': 0, 'of': [cm_entry(r, False) for _ in range(r.randrange(4))]}
    lo = rcode(r)
    hi = list(lo)
    if k == 'range':
        limit = 0x80 if len(lo) == 1 else 255
        hi[-1] = min(limit, lo[-1] + r.choice([0, 1, 3, 20]))
    return {'k': k, 'lo': lo, 'hi': hi, 'cid': cid, 'of': []}


def widths_items(r, k, cids):
    out = []

    def number(v, cid=False):
        return {'k': 'n', 'n': v, 'list': [], 'cid': cid}

    def value():
        return r.choice([0, 2500, 5000, 10000, 3335, r.randrange(12000)])

    def group():
        return [value()] if k == 1 else [-value(), value(), value()]
    for _ in range(r.choice([0, 1, 2, 5, 12])):
        a = r.choice(cids) if cids and r.random() < .7 else r.randrange(400)
        if r.random() < .5:
            out += [number(a, True), number(a + r.choice([0, 1, 3, 30]), True)] + [number(x) for x in group()]
        else:
            out += [number(a, True), {'k': 'list', 'n': 0, 'cid': False, 'list': [x for _ in range(r.randrange(5)) for x in group()]}]
    return out


def random_composite(r, what):
    kind = r.choice(['identity', 'table'])
    wmode = r.choice([0, 0, 1])
    es = [] if kind == 'identity' else [cm_entry(r, False) for _ in range(r.choice([1, 2, 5, 10]))]
    if kind == 'table' and r.random() < .3:
        es.insert(0, dict(cm_entry(r, False), k='use', of=[cm_entry(r, False) for _ in range(r.randrange(1, 4))], lo=[], hi=[]))
    tree = code_tree(es)
    codes = []

    def walk(d, pre):
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v, pre + [k])
            else:
                codes.append((pre + [k], v))
    walk(tree, [])
    if kind == 'identity':
        pool = [r.randrange(300) for _ in range(6)] + [r.randrange(65536) for _ in range(3)]
        codes = [([c >> 8, c & 255], c) for c in pool]
    cids = [c for _, c in codes]
    f = {'cm': {'kind': kind, 'wmode': wmode, 'entries': es}, 'hasbf': False, 'bf': [], 'hascoll': False, 'collh': [], 'collv': [], 'hasttf': False, 'ttf': [],
         'w': widths_items(r, 1, cids), 'w2': widths_items(r, 3, cids), 'dw': r.choice([10000, 10000, 0, 5005]), 'dw2': r.choice([[8800, -10000], [8800, -10000], [5000, -7505], [0, 0]]),
         'missing': r.choice([0, 0, 2500])}
    src = r.choice(['bf', 'bf', 'coll', 'ttf', 'none'] if kind == 'identity' else ['bf', 'coll', 'coll', 'ttf', 'none'])
    if src == 'bf':
        f['hasbf'] = True
        f['bf'] = [bf_entry(r, 65535 if kind == 'identity' else 0xe183ff, [int.from_bytes(bytes(b), 'big') for b, _ in codes]) for _ in range(r.choice([0, 1, 5, 20]))]
    elif src == 'coll':
        f['hascoll'] = True
        for k in ('collh', 'collv'):
            f[k] = [{'cid': c, 'v': [r.choice([unit(r), 0x20000 + r.randrange(0x1000)])]} for c in sorted(set(cids)) if r.random() < .9]
    elif src == 'ttf':
        f['hasttf'] = True
        gids = sorted({c for c in cids if c})
        chars = r.sample(range(0x20, 0x7f), min(len(gids), 60)) if r.random() < .5 else r.sample([c for c in range(0x20, 0x3000)], min(len(gids), 60))
        full = [{'ch': c, 'gid': g} for c, g in zip(chars, r.sample(gids, len(chars)))]
        k = r.choice(['win', 'win', 'unicode', 'mac', 'macwin', 'symbol', 'both'])
        mac = [x for x in full if x['gid'] < 256 and mac_char(x['ch'])]
        f['ttf'] = {'win': [(3, 1, full)], 'unicode': [(0, 3, full)], 'mac': [(1, 0, mac)], 'macwin': [(1, 0, mac), (3, 1, full)],
                    'symbol': [(3, 0, full)], 'both': [(0, 3, full[::2]), (3, 1, full)]}[k]
        f['ttf'] = [{'plat': a, 'enc': b, 'map': m} for a, b, m in f['ttf']]
    strs = []
    for _ in range(r.choice([1, 1, 2, 4])):
        s = [b for _ in range(r.randrange(1, 9)) for b in r.choice(codes)[0]] if codes else []
        if r.random() < .2:
            part = r.choice(codes)[0] if codes else [0, 0]
            s += part[:r.randrange(len(part))]
        strs.append(s)
    return f, strs


def mac_char(c):
    try:
        chr(c).encode('mac_roman')
        return True
    except UnicodeEncodeError:
        return False
