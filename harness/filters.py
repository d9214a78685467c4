"""Encoders with every legal freedom, and reading streams with the real code (for Filters.tla)."""
import io, random, zlib
from pdfgen import PDF, Name, Ref, Stream, Raw, simple_doc

NAMES = {'hex': ['ASCIIHexDecode', 'AHx'], 'a85': ['ASCII85Decode', 'A85'], 'rl': ['RunLengthDecode', 'RL'],
         'lzw': ['LZWDecode', 'LZW'], 'opaque': ['FlateDecode', 'Fl'], 'pass': ['DCTDecode', 'DCT']}
WS = b'\0\t\n\f\r '


def sprinkle(rng, parts):
    p = rng.choice([0, 0, .05, .4])
    out = b''
    for x in parts:
        while rng.random() < p:
            out += bytes([rng.choice(WS)])
        out += x
    return out


def enc_hex(d, rng):
    s = ''.join(rng.choice(['%02x', '%02X'])[0:] % b for b in d)
    if s.endswith('0') and rng.random() < .5:
        s = s[:-1]
    end = rng.choice([[b'>'], [b'>', b'\n'], [b'>', b'41garbage'], []])
    return sprinkle(rng, [bytes([c]) for c in s.encode()] + end)


def enc_a85(d, rng):
    parts = []
    for i in range(0, len(d), 4):
        g = d[i:i + 4]
        v = int.from_bytes(g + bytes(4 - len(g)), 'big')
        if g == bytes(4) and rng.random() < .8:
            parts.append(b'z')
            continue
        s = b''
        for _ in range(5):
            s = bytes([33 + v % 85]) + s
            v //= 85
        parts += [bytes([c]) for c in s[:len(g) + 1]]
    return sprinkle(rng, parts) + rng.choice([b'~>', b'~>', b'~>\n', b'~>AAAAA', b''])


def enc_rl(d, rng):
    out, i = b'', 0
    while i < len(d):
        run = 1
        while run < 128 and i + run < len(d) and d[i + run] == d[i]:
            run += 1
        if run >= 2 and rng.random() < .8:
            n = rng.choice([run, rng.randint(2, run)])
            out += bytes([257 - n, d[i]])
        else:
            n = rng.choice([rng.randint(1, min(128, len(d) - i)), min(128, len(d) - i)])
            out += bytes([n - 1]) + d[i:i + n]
        i += n
    return out + rng.choice([b'\x80', b'\x80', b'\x80\n', b'\x80\x05junk', b''])


def enc_lzw(d, rng, early=1, greedy=.9, clear=.002):
    """A decoder's table is followed; any string of it may be used, a clear code may come at any time."""
    bits = []
    st = {'w': 9, 'tab': None, 'prev': None, 'n': 0}

    def put(c):
        bits.append((c, st['w']))

    def reset():
        put(256)
        st.update(w=9, tab={bytes([k]): k for k in range(256)}, prev=None, n=258)
    if rng.random() < .1:
        reset()
    reset()
    i = 0
    while i < len(d):
        if rng.random() < clear or st['n'] >= 4094:
            reset()
        # the string being completed by this very code can be used too
        n = 1
        tab = st['tab']
        cand = [1]
        while i + n < len(d) and n < 300:
            n += 1
            if d[i:i + n] in tab or (st['prev'] is not None and d[i:i + n] == st['prev'] + st['prev'][:1]):
                cand.append(n)
        n = cand[-1] if rng.random() < greedy else rng.choice(cand)
        x = d[i:i + n]
        code = tab[x] if x in tab else st['n']
        put(code)
        if st['prev'] is not None:
            new = st['prev'] + x[:1]
            # the newest code stands for the string too; an older one may stay in use
            if new not in tab or rng.random() < .5:
                tab[new] = st['n']
            st['n'] += 1
            l = st['n'] + early
            st['w'] = 9 if l < 512 else 10 if l < 1024 else 11 if l < 2048 else 12
        st['prev'] = x
        i += n
    put(257)
    v = n = 0
    out = bytearray()
    for c, w in bits:
        v = (v << w) | c
        n += w
        while n >= 8:
            out.append((v >> (n - 8)) & 255)
            n -= 8
            v &= (1 << n) - 1
    if n:
        out.append((v << (8 - n)) & 255)
    return bytes(out) + rng.choice([b'', b'', b'\n', b'\r\n', b'\x12\x34\x56\x78'])


def enc_flate(d, rng):
    co = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, rng.choice([9, 12, 15]), 8,
                          rng.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FIXED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE]))
    return co.compress(d) + co.flush() + rng.choice([b'', b'', b'\n', b'\r\n'])


def png(d, st, rng):
    """Rows with a type each; d must be whole rows"""
    rl = (st['colors'] * st['cols'] * st['bpc'] + 7) // 8
    bpp = max(1, st['colors'] * st['bpc'] // 8)
    out, prev = b'', bytes(rl)
    only = rng.choice([None, None, 0, 1, 2, 3, 4])
    for i in range(0, len(d), rl):
        row = d[i:i + rl]
        ft = rng.randrange(5) if only is None else only
        r = bytearray([ft])
        for k in range(rl):
            a = row[k - bpp] if k >= bpp else 0
            b = prev[k]
            c = prev[k - bpp] if k >= bpp else 0
            p = a + b - c
            pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
            e = a if pa <= pb and pa <= pc else b if pb <= pc else c
            r.append((row[k] - [0, a, b, (a + b) // 2, e][ft]) % 256)
        out += r
        prev = row
    return out


def plain(rng, n):
    k = rng.random()
    if k < .3:
        return bytes(rng.randrange(256) for _ in range(n))
    if k < .5:
        return bytes(rng.choice(b'ab\0') for _ in range(n))
    if k < .8:
        s = b''
        while len(s) < n:
            s += bytes([rng.choice([0, 0, 255, 65, rng.randrange(256)])]) * rng.randrange(1, rng.choice([4, 20, 300]))
        return s[:n]
    return (b'the quick brown fox ' * (n // 20 + 1))[:n]


def random_case(rng, big=False):
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 16, 40, 120, 300]) if not big else 6000
    chain = [] if rng.random() < .03 else [rng.choice(['hex', 'a85', 'rl', 'lzw', 'lzw', 'opaque', 'opaque']) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
    if big:
        chain = ['lzw']
    elif rng.random() < .05:
        chain = chain[:2] + ['pass']
    stages = []
    for f in chain:
        st = {'f': f, 'pred': 0, 'colors': 1, 'cols': 1, 'bpc': 8, 'early': 1, 'plain': []}
        if f in ('lzw', 'opaque') and rng.random() < .5:
            st['pred'] = rng.choice([1, 10, 11, 12, 13, 14, 15, 15])
            if st['pred'] >= 10:
                st.update(colors=rng.choice([1, 1, 2, 3, 4]), cols=rng.choice([1, 2, 3, 5, 9, 30]), bpc=rng.choice([8, 8, 8, 1, 2, 4, 16]))
        if f == 'lzw' and rng.random() < .3:
            st['early'] = 0
        stages.append(st)
    d = plain(rng, n)
    # the last stage is encoded first
    for k in range(len(stages) - 1, -1, -1):
        st = stages[k]
        if st['pred'] >= 10:
            rl = (st['colors'] * st['cols'] * st['bpc'] + 7) // 8
            if len(d) % rl:
                if k < len(stages) - 1:
                    st['pred'] = 0
                else:
                    d += bytes(rl - len(d) % rl)
        if st['pred'] >= 10:
            d = png(d, st, rng)
        f = st['f']
        if f == 'opaque':
            st['plain'] = list(d)
        d = {'hex': enc_hex, 'a85': enc_a85, 'rl': enc_rl, 'opaque': enc_flate, 'pass': lambda d, r: d,
             'lzw': lambda d, r: enc_lzw(d, r, st['early'], r.choice([1, .9, .5]), r.choice([0, .002, .05]))}[f](d, rng)
    return {'data': list(d), 'stages': stages, 'seed': rng.random()}


def attrs(pdf, stages, rng):
    """Every way to write the chain"""
    def parms(st):
        p = {}
        if st['pred'] or rng.random() < .1:
            p['Predictor'] = st['pred'] or 1
        if st['pred'] >= 10:
            for k, v, dflt in (('Colors', st['colors'], 1), ('Columns', st['cols'], 1), ('BitsPerComponent', st['bpc'], 8)):
                if v != dflt or rng.random() < .7:
                    p[k] = v
        if st['early'] != 1 or rng.random() < .1:
            p['EarlyChange'] = st['early']
        if rng.random() < .1:
            p = {k: pdf.add(v) for k, v in p.items()}
        return p

    def maybe(v):
        return pdf.add(v) if rng.random() < .15 else v
    names = [maybe(Name(rng.choice(NAMES[st['f']]))) for st in stages]
    ps = [parms(st) for st in stages]
    d = {}
    if len(stages) == 1 and rng.random() < .6:
        d['Filter'] = names[0]
        if ps[0] or rng.random() < .2:
            d['DecodeParms'] = maybe(ps[0])
    elif stages or rng.random() < .5:
        d['Filter'] = maybe(names)
        if any(ps) or rng.random() < .2:
            d['DecodeParms'] = maybe([maybe(p) if p else rng.choice([None, {}]) for p in ps])
    return d


def build(case):
    rng = random.Random(case['seed'])
    pdf = simple_doc([b'']) if False else PDF()
    s = pdf.add(Stream(bytes(case['data']), attrs(pdf, case['stages'], rng)))
    tree = pdf.reserve()
    pdf.add({'Type': Name('Pages'), 'Kids': [], 'Count': 0}, tree)
    pdf.root = pdf.add({'Type': Name('Catalog'), 'Pages': tree, 'It': s})
    return pdf.build(rng), s


def read(case):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFStream import resolve1
    data, s = build(case)
    try:
        outs = []
        for caching in (True, False):
            doc = PDFDocument(PDFParser(io.BytesIO(data)), caching=caching)
            st = doc.getobj(s.n)
            outs += [st.get_data(), st.get_data(), resolve1(doc.catalog['It']).get_data(), doc.getobj(s.n).get_data()]
        return {'exc': 'none', 'data': list(outs[0]), 'same': all(o == outs[0] for o in outs)}
    except Exception as e:
        return {'exc': type(e).__name__, 'data': [], 'same': True, 'msg': str(e)[:200]}
