"""Encoding bitmaps as Group 4 data with every legal freedom, decoding them with the real code (for Fax.tla)."""
import io, random, re, os
import vlib
from pdfgen import PDF, Name, Ref, Stream

_codes = {}


def codes():
    """The code tables of FaxCodes.tla"""
    if not _codes:
        s = open(os.path.join(vlib.SPECS, 'FaxCodes.tla')).read()
        for nm, col in (('WhiteCodes', 0), ('BlackCodes', 1)):
            t = s[s.index(nm + ' == {'):]
            t = t[:t.index('}')]
            _codes[col] = {int(a): format(int(c), '0%sb' % b) for a, b, c in re.findall(r'<<(\d+),(\d+),(\d+)>>', t)}
    return _codes


V = {0: '1', 1: '011', -1: '010', 2: '000011', -2: '000010', 3: '0000011', -3: '0000010'}


def run_bits(col, n):
    t = codes()[col]
    s = ''
    while n > 2623:
        s += t[2560]
        n -= 2560
    if n >= 64:
        s += t[n - n % 64]
    return s + t[n % 64]


def encode(bm, w, align, eofb, rng):
    out = ''
    ref = []
    lazy = rng.choice([0, 0, .3, 1])
    for row in bm:
        a0, col = -1, 0
        while a0 < w:
            nxt = [c for c in row if c > a0] + [w, w]
            a1, a2 = nxt[0], nxt[1]
            k = next((i for i, c in enumerate(ref) if c > a0 and i % 2 == col), None)
            b1 = w if k is None else ref[k]
            b2 = w if k is None or k + 1 >= len(ref) else ref[k + 1]
            opts = []
            if b2 < a1:
                opts.append('p')
            if -3 <= a1 - b1 <= 3:
                opts.append('v')
            opts.append('h')
            o = rng.choice(opts) if rng.random() < lazy else opts[0]
            if o == 'p':
                out += '0001'
                a0 = b2
            elif o == 'v':
                out += V[a1 - b1]
                a0, col = a1, 1 - col
            else:
                out += '001' + run_bits(col, a1 - max(a0, 0)) + run_bits(1 - col, a2 - a1)
                a0 = a2
        if align:
            out += '0' * (-len(out) % 8)
        ref = row
    if eofb:
        out += '000000000001' * 2
    out += '0' * (-len(out) % 8)
    return bytes(int(out[i:i + 8], 2) for i in range(0, len(out), 8))


def changes(bits):
    r, last = [], 0
    for i, b in enumerate(bits):
        if b != last:
            r.append(i)
            last = b
    return r


def pil_encode(bm, w):
    """An encoder that is not ours (libtiff)"""
    from PIL import Image
    im = Image.new('1', (w, len(bm)), 0)
    px = im.load()
    for y, row in enumerate(bm):
        for k in range(0, len(row), 2):
            for x in range(row[k], row[k + 1] if k + 1 < len(row) else w):
                px[x, y] = 1
    f = io.BytesIO()
    im.save(f, 'TIFF', compression='group4', tiffinfo={278: len(bm)})
    f.seek(0)
    t = Image.open(f)
    offs, lens = t.tag_v2[273], t.tag_v2[279]
    if len(offs) != 1:
        return None
    # libtiff codes bits as they are when 0 is black
    data = f.getvalue()[offs[0]:offs[0] + lens[0]]
    return data


def build(case):
    rng = random.Random(case['seed'])
    pdf = PDF()
    p = {'K': -1}
    if case['width'] != 1728 or rng.random() < .5:
        p['Columns'] = case['width']
    if case['align'] or rng.random() < .2:
        p['EncodedByteAlign'] = bool(case['align'])
    if case['black1'] or rng.random() < .2:
        p['BlackIs1'] = bool(case['black1'])
    if case['rows'] or rng.random() < .2:
        p['Rows'] = case['rows'] or 0
    if case['rows'] or rng.random() < .2:
        p['EndOfBlock'] = not case['rows']
    if rng.random() < .15:
        p = {k: pdf.add(v) for k, v in p.items()}
    f = Name(rng.choice(['CCITTFaxDecode', 'CCF']))
    a = {'Filter': f, 'DecodeParms': p} if rng.random() < .6 else {'Filter': [f], 'DecodeParms': [p]}
    s = pdf.add(Stream(bytes(case['data']), a))
    tree = pdf.reserve()
    pdf.add({'Type': Name('Pages'), 'Kids': [], 'Count': 0}, tree)
    pdf.root = pdf.add({'Type': Name('Catalog'), 'Pages': tree})
    return pdf.build(rng), s


def read(case):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    data, s = build(case)
    try:
        out = PDFDocument(PDFParser(io.BytesIO(data))).getobj(s.n).get_data()
    except Exception as e:
        return {'exc': type(e).__name__, 'rows': [], 'msg': str(e)[:200]}
    w = case['width']
    n = (w + 7) // 8
    if len(out) % n:
        return {'exc': 'row length', 'rows': []}
    rows = []
    for i in range(0, len(out), n):
        bits = ''.join(format(b, '08b') for b in out[i:i + n])[:w]
        rows.append(changes([int(b) if case['black1'] else 1 - int(b) for b in bits]))
    return {'exc': 'none', 'rows': rows}


def random_bitmap(rng):
    w = rng.choice([1, 2, 3, 7, 8, 9, 16, 17, 31, 60, 64, 100, 200, 1728, 2560, 2700, 5300])
    h = rng.choice([1, 1, 2, 3, 5, 8, 16])
    bm = []
    for y in range(h):
        k = rng.random()
        if y and k < .35:
            # much like the row above
            row = set()
            for c in bm[-1]:
                if rng.random() < .85:
                    row.add(min(w - 1, max(0, c + rng.choice([-4, -3, -2, -1, 0, 0, 0, 0, 1, 2, 3, 4]))))
            if rng.random() < .3:
                row.add(rng.randrange(w))
        elif k < .45:
            row = set()
        elif k < .55:
            row = {0}
        else:
            row = {rng.randrange(w) for _ in range(rng.choice([1, 2, 3, 6, 15, 40]))}
        bm.append(sorted(row))
    return bm, w


def random_case(rng):
    bm, w = random_bitmap(rng)
    if rng.random() < .2:
        data = pil_encode(bm, w)
        if data is not None:
            return {'data': list(data), 'width': w, 'align': False, 'rows': 0, 'bm': bm, 'black1': rng.random() < .5, 'seed': rng.random()}
    align = rng.random() < .4
    end = rng.choice(['eofb', 'eofb', 'rows', 'none'])
    data = encode(bm, w, align, end == 'eofb', rng)
    if end == 'eofb':
        data += rng.choice([b'', b'', b'\n', b'\x9a\x41\xff'])
    if end == 'rows':
        data += rng.choice([b'', b'\n', b'\r\n'])
    return {'data': list(data), 'width': w, 'align': align, 'rows': len(bm) if end == 'rows' else 0, 'bm': bm,
            'black1': rng.random() < .5, 'seed': rng.random()}


def all_runs(rng):
    """Bitmaps whose rows hold every run length with a code of its own, in both colours"""
    out = []
    for n in list(range(1, 64)) + [64 * k + rng.choice([0, 1, 63]) for k in range(1, 41)] + [2624, 5120, 5183]:
        for row in ([n], [0, n]):
            w = n + rng.choice([1, 5, 70])
            bm = [row]
            out.append({'data': list(encode(bm, w, False, True, random.Random(1))), 'width': w, 'align': False, 'rows': 0, 'bm': bm,
                        'black1': False, 'seed': rng.random()})
            data = pil_encode(bm, w)
            if data is not None:
                out.append(dict(out[-1], data=list(data)))
    return out
