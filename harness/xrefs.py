"""Files with a history of incremental updates, their lookups, and random histories (for Xref.tla)."""
import io, random, zlib
import vlib
from pdfgen import ser, Name, Ref, Stream

BASE = 50          # catalog 50, page tree 51; containers and streams of revision r: 60+2r, 61+2r


def value_body(o, v, rng, stream_ok=True):
    k = rng.randrange(6 if stream_ok else 5)
    if k == 0:
        return ser(v)
    if k == 1:
        return ser({'V': v})
    if k == 2:
        return ser([v])
    if k == 3:
        return ser(b'%d' % v, rng)
    if k == 4:
        return ser({'K': [{'V': [None, Ref(BASE), -5]}, b'x'], 'V': v})
    return ser(Stream(b'%d' % v if rng.random() < .5 else b'%d' % v, {'V': v}))


def decode(x):
    from pdfmajor.parser.PDFStream import PDFStream
    if isinstance(x, PDFStream):
        if x.get_data() != b'%d' % x['V']:
            return -3
        return x['V']
    if isinstance(x, dict):
        return x['V'] if isinstance(x.get('V'), int) else -4
    if isinstance(x, list):
        return x[0] if len(x) == 1 and isinstance(x[0], int) else -4
    if isinstance(x, bytes):
        return int(x)
    return x if isinstance(x, int) else -4


def runs(nums):
    out = []
    for n in sorted(nums):
        if out and out[-1][0] + out[-1][1] == n:
            out[-1][1] += 1
        else:
            out.append([n, 1])
    return out


def build(case, seed):
    """The bytes of the file with history case['h'] and damage case['dam'] at case['at']."""
    rng = random.Random(seed)
    out = bytearray(b'%PDF-1.5\n%\xe2\xe3\xcf\xd3\n')
    dam, at = case['dam'], case['at']
    nl = rng.choice([b'\n', b'\n', b'\r\n', b'\r'])
    prev = None
    starts = []
    size = BASE + 10 + 2 * len(case['h'])
    gens = {}
    heads = {}
    prevpos = {}
    for r, rev in enumerate(case['h']):
        kind = rev['kind']
        pos, comp, free = {}, {}, {}
        cont, xs = BASE + 10 + 2 * r, BASE + 11 + 2 * r

        def put(n, body, g=0):
            pos[n] = (len(out), g)
            heads.setdefault(n, []).append(len(out))
            out.extend(b'%d %d obj' % (n, g) + rng.choice([nl, b' ', nl]) + body + rng.choice([nl, b' ', nl]) + b'endobj' + nl)
        if r == 0:
            put(BASE, ser({'Type': Name('Catalog'), 'Pages': Ref(BASE + 1)}))
            put(BASE + 1, ser({'Type': Name('Pages'), 'Kids': [], 'Count': 0}))
        direct = [c for c in rev['chs'] if c['how'] == 'd']
        cs = [c for c in rev['chs'] if c['how'] == 'c']
        rng.shuffle(direct)
        cpos = rng.randrange(len(direct) + 1)
        for i in range(len(direct) + 1):
            if i == cpos and cs:
                bodies = [value_body(c['o'], c['v'], rng, False) for c in cs]
                head, off = [], 0
                for c, b in zip(cs, bodies):
                    head += [c['o'], off]
                    off += len(b) + 1
                h = ' '.join(map(str, head)).encode() + b' '
                data = h + b' '.join(bodies)
                d = {'Type': Name('ObjStm'), 'N': len(cs), 'First': len(h)}
                if rng.random() < .5:
                    data = zlib.compress(data)
                    d['Filter'] = Name('FlateDecode')
                put(cont, ser(Stream(data, d)))
                for k, c in enumerate(cs):
                    comp[c['o']] = (cont, k)
            if i < len(direct):
                c = direct[i]
                g = gens.get(c['o'], 0)
                put(c['o'], value_body(c['o'], c['v'], rng), g)
        for c in rev['chs']:
            if c['how'] == 'f':
                gens[c['o']] = gens.get(c['o'], 0) + 1
                free[c['o']] = gens[c['o']]
        extra = {}
        if prev is not None:
            extra['Prev'] = prev
        elif dam == 'cycle':
            extra['Prev'] = Name('CYCCYCCYC')
        if dam == 'prev' and r + 1 == at:
            extra['Prev'] = rng.choice([3, 10 ** 7, pos[min(pos)][0] if pos and min(pos) < BASE else 5])
        root = {'Root': Ref(BASE), 'Size': size}

        bad = {}
        if dam == 'offset':
            # its newest entry is wrong: beyond the end, or at the header of something else
            bad[at] = rng.choice([10 ** 7, heads[BASE][0], heads[BASE + 1][0]])

        def xref_stream(entries, sets, more):
            nonlocal out
            start = len(out)
            if kind == 'stream':
                entries = dict(entries)
                entries[xs] = (1, start, 0)
            full = kind == 'stream' and r == 0 and rng.random() < .5
            if full:
                for n in range(size):
                    entries.setdefault(n, (0, 0, 0))
            w = [0 if all(e[0] == 1 for e in entries.values()) and rng.random() < .5 else rng.choice([1, 1, 2]),
                 rng.choice([3, 4, 5, 6, 7, 8]), rng.choice([1, 2, 3, 6])]
            if all(e[2] == 0 for e in entries.values()) and rng.random() < .3:
                w[2] = 0
            data = b''.join(b''.join((e[i] if i else e[i]).to_bytes(w[i], 'big') if w[i] else b'' for i in range(3))
                            for n, e in sorted(entries.items()))
            d = {'Type': Name('XRef'), 'W': w}
            d.update(root)
            d.update(more)
            if not full:
                ix = [x for q in runs(entries) for x in q]
                d['Index'] = ix
            if rng.random() < .6:
                if rng.random() < .5:
                    d['DecodeParms'] = {'Columns': sum(w), 'Predictor': 12}
                    rows, last = b'', bytes(sum(w))
                    for i in range(0, len(data), sum(w)):
                        row = data[i:i + sum(w)]
                        rows += b'\x02' + bytes((a - b) & 255 for a, b in zip(row, last))
                        last = row
                    data = rows
                data = zlib.compress(data)
                d['Filter'] = Name('FlateDecode')
            body = ser(Stream(data, d))
            out += b'%d 0 obj' % xs + nl + body + nl + b'endobj' + nl
            return start

        ent = {n: (1, bad.get(n, p), g) for n, (p, g) in pos.items()}
        cent = {n: (2, c, k) for n, (c, k) in comp.items()}
        for n in bad:
            if n in cent:
                cent[n] = (2, BASE + 9, 0)      # an object stream that does not exist
        fent = {n: (0, 0, g) for n, g in free.items()}
        if kind == 'stream':
            e = dict(ent)
            e.update(cent)
            e.update(fent)
            start = xref_stream(e, None, extra)
        else:
            if kind == 'hybrid':
                extra['XRefStm'] = xref_stream(cent, None, {})
            start = len(out)
            tab = {n: (p, g, b'n') for n, (_, p, g) in ent.items()}
            tab.update({n: (0, g, b'f') for n, g in free.items()})
            tab.update({n: (0, 0, b'f') for n in rev['hide']})
            if r == 0:
                tab[0] = (0, 65535, b'f')
            out += b'xref' + nl
            eol = rng.choice([b' \n', b'\r\n', b' \r'])
            for a, k in runs(tab):
                out += b'%d %d' % (a, k) + nl
                for n in range(a, a + k):
                    out += b'%010d %05d ' % tab[n][:2] + tab[n][2] + eol
            d = dict(root)
            d.update(extra)
            out += b'trailer' + nl + ser(d) + nl
        prev = start
        starts.append(start)
        out += b'startxref' + nl + b'%d' % start + nl + b'%%EOF' + nl
    data = bytes(out)
    if dam == 'cycle':
        # the oldest section points back to some section
        target = b'%d' % rng.choice(starts)
        i = data.index(b'/CYCCYCCYC')
        data = data[:i] + target.ljust(10) + data[i + 10:]
    if dam == 'start':
        i = data.rindex(b'startxref')
        k = rng.randrange(4)
        if k == 0:
            data = data[:i] + b'startxref' + nl + b'99999999' + nl + b'%%EOF' + nl
        elif k == 1:
            data = data[:i] + b'startxref' + nl + b'abc' + nl + b'%%EOF' + nl
        elif k == 2:
            data = data[:i] if len(starts) == 1 else data[:i] + b'startxref' + nl
        else:
            data = data[:i] + b'startxref' + nl + b'1' + nl + b'%%EOF' + nl
    return data


def observe(case):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.execptions import PDFObjectNotFound
    doc = PDFDocument(PDFParser(io.BytesIO(build(case, case['seed']))))
    obs = []
    for o in case['ask']:
        try:
            obs.append({'o': o, 'v': decode(doc.getobj(o)), 'exc': 'none'})
        except PDFObjectNotFound:
            obs.append({'o': o, 'v': -1, 'exc': 'none'})
        except Exception as e:
            obs.append({'o': o, 'v': -2, 'exc': type(e).__name__})
    return {'obs': obs}


def random_case(rng):
    n = rng.randrange(2, 13)
    objs = rng.sample(range(1, 40), n)
    h = []
    val = rng.randrange(100, 900)
    live = set()
    pure = rng.random()
    only = 'table' if pure < .25 else 'stream' if pure < .5 else None
    for r in range(rng.choice([1, 2, 2, 3, 4, 6, 8])):
        kind = only or rng.choice(['table', 'stream', 'hybrid'])
        ch = rng.sample(objs, rng.randrange(1, n + 1))
        chs = []
        for o in ch:
            how = rng.choice('ddcf' if kind != 'table' else 'ddf')
            if how == 'f' and o not in live and rng.random() < .7:
                how = 'd'
            val += rng.randrange(1, 9)
            chs.append({'o': o, 'how': how, 'v': val if how != 'f' else 0})
            (live.discard if how == 'f' else live.add)(o)
        cs = [c['o'] for c in chs if c['how'] == 'c']
        if kind == 'hybrid' and not cs:
            kind = 'table'
        h.append({'kind': kind, 'chs': chs, 'hide': rng.choice([[], cs, [o for o in cs if rng.random() < .5]]) if kind == 'hybrid' else []})
    dam, at = rng.choice(['none'] * 5 + ['start', 'start', 'prev', 'cycle', 'offset', 'offset']), 0
    if dam == 'prev':
        dam, at = ('none', 0) if len(h) < 2 else (dam, rng.randrange(2, len(h) + 1))
    if dam == 'offset':
        dam, at = ('none', 0) if not live else (dam, rng.choice(sorted(live)))
    ask = sorted(set(objs + rng.sample(range(1, 40), 3)))
    rng.shuffle(ask)
    return {'h': h, 'dam': dam, 'at': at, 'ask': ask}
