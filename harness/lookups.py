"""Documents whose objects need each other, and sequences of lookups on them (for Lookup.tla)."""
import io, random, zlib
from pdfgen import ser, Name, Ref, Stream


def needs(doc, o):
    seen, todo = set(), [o]
    while todo:
        x = todo.pop()
        if not 1 <= x <= len(doc):
            continue
        d = doc[x - 1]
        n = {'val': d['at'], 'str': d['to'], 'ref': d['to']}.get(d['k'], 0)
        if n and n not in seen:
            seen.add(n)
            todo.append(n)
    return seen


def final(doc, o):
    seen = {o}
    while True:
        if not 1 <= o <= len(doc):
            return None
        d = doc[o - 1]
        if d['k'] == 'ref':
            if d['to'] in seen:
                return None
            o = d['to']
            seen.add(o)
        elif d['k'] == 'val':
            c = d['at']
            return 100 + o if c == 0 or (c <= len(doc) and doc[c - 1]['k'] == 'str') else None
        elif d['k'] == 'off':
            return 100 + o
        else:
            return None


def usable(doc, o):
    d = doc[o - 1]
    return d['k'] == 'str' and (d['to'] == 0 or (o not in needs(doc, o) and final(doc, d['to']) is not None))


def build(doc, seed):
    """-> (bytes, expected stream data by object)

    A Length that is of no use may still be resolvable from the middle of another
    lookup; the layout must not make it right by coincidence."""
    for attempt in range(100):
        pdf, data, starts = layout(doc, '%s/%d' % (seed, attempt))
        if not any(pdf[a + n:a + n + 20].lstrip()[:9] == b'endstream' for a in starts for n in range(101, 101 + len(doc))):
            return pdf, data
    raise AssertionError('no layout')


def members(doc, c, seed):
    """(object, whether it counts) of object stream c: it may also hold outdated versions of any object"""
    live = [i for i, x in enumerate(doc, 1) if x['k'] == 'val' and x['at'] == c]
    if not live:
        return []
    r = random.Random('%s/%s' % (c, seed))
    # objects that can always be read where they are: a scan of the file may prefer the outdated version
    sure = [i for i, x in enumerate(doc, 1) if x['k'] in ('ref', 'str', 'none', 'orphan') or x['k'] == 'val' and (
        x['at'] == 0 or x['at'] <= len(doc) and doc[x['at'] - 1]['k'] == 'str' and doc[x['at'] - 1]['to'] == 0)]
    return sorted([(i, True) for i in live] + [(r.choice(sure), False) for _ in range(r.choice([0, 0, 1, 2]) if sure else 0)],
                  key=lambda _: r.random())


def layout(doc, seed):
    r = random.Random(seed)
    starts = []
    out = bytearray(b'%PDF-1.5\n')
    lens = set()
    for o, d in enumerate(doc, 1):
        if d['k'] == 'str' and d['to']:
            lens |= needs(doc, o)
    ent, data = {}, {}

    def val(o):
        v = 100 + o
        if o in lens:
            return ser(v)
        return ser(r.choice([v, {'V': v}, [v], b'%d' % v, {'V': v, 'P': Ref(1)}]))

    def put(n, body):
        ent[n] = (1, len(out), 0)
        out.extend(b'%d 0 obj' % n + r.choice([b'\n', b' ', b'\r\n']) + body + r.choice([b'\n', b' ']) + b'endobj\n')
    put(50, ser({'Type': Name('Catalog'), 'Pages': Ref(51)}))
    put(51, ser({'Type': Name('Pages'), 'Kids': [], 'Count': 0}))
    order = list(range(1, len(doc) + 1))
    r.shuffle(order)
    for o in order:
        d = doc[o - 1]
        k = d['k']
        if k == 'val' and d['at'] == 0 or k in ('off', 'orphan'):
            put(o, val(o))
            if k == 'orphan':
                del ent[o]
            if k == 'off':
                ent[o] = (1, r.choice([0 if False else ent[50][1], 10 ** 6]), 0)
        elif k == 'val':
            ent[o] = (2, d['at'], members(doc, d['at'], seed).index((o, True)))
        elif k == 'ref':
            put(o, ser(Ref(d['to'])))
        elif k == 'str':
            mem = members(doc, o, seed)
            use = usable(doc, o)
            want = final(doc, d['to']) if use and d['to'] else None
            dic = {'V': 300 + o}
            if mem:
                bodies = [ser(777) if not live else val(m) if want is None else ser(100 + m) for m, live in mem]
                head, off = [], 0
                for (m, _), b in zip(mem, bodies):
                    head += [m, off]
                    off += len(b) + 1
                h = ' '.join(map(str, head)).encode() + b' '
                raw = h + b' '.join(bodies)
                dic.update(Type=Name('ObjStm'), N=len(mem), First=len(h))
                if want is not None:
                    assert len(raw) <= want, (len(raw), want)
                    raw = raw.ljust(want)
                plain = raw
            else:
                plain = raw = bytes(r.choice(b'ab \n(<%') for _ in range(want or r.randrange(3, 60)))
                if use:
                    i = r.randrange(len(raw))
                    raw = (raw[:i] + r.choice([b'endstream', b'\nendstream\n', b'\nendobj\n', b'\r', b''])[:max(0, len(raw) - i)])
                    plain = raw = raw.ljust(want or 0, b'\n')
                else:
                    plain = raw = raw + b'.'
            if want is None and use and r.random() < .4:
                raw = zlib.compress(raw)
                dic['Filter'] = Name('FlateDecode')
            dic['Length'] = Ref(d['to']) if d['to'] else len(raw)
            data[o] = plain
            # only the data of a stream with a usable Length may hide an end of line before endstream
            head = ser(dic) + b'\nstream' + r.choice([b'\n', b'\r\n'])
            put(o, head + raw + r.choice([b'\n', b'\r\n']) + b'endstream')
            if not use:
                starts.append(ent[o][1] + bytes(out[ent[o][1]:]).index(head) + len(head))
    start = len(out)
    comp = any(e[0] == 2 for e in ent.values())
    root = {'Root': Ref(50), 'Size': 60}
    if comp or r.random() < .5:
        ent[59] = (1, start, 0)
        rows = b''.join(bytes([e[0]]) + e[1].to_bytes(3, 'big') + bytes([e[2]]) for _, e in sorted(ent.items()))
        d = dict(root, Type=Name('XRef'), W=[1, 3, 1], Index=[x for n in sorted(ent) for x in (n, 1)])
        out += b'59 0 obj\n' + ser(Stream(rows, d)) + b'\nendobj\n'
    else:
        out += b'xref\n'
        for n in sorted(ent):
            out += b'%d 1\n%010d 00000 n \n' % (n, ent[n][1])
        out += b'trailer\n' + ser(root) + b'\n'
    out += b'startxref\n%d\n%%%%EOF\n' % start
    return bytes(out), data, starts


def code(x, o, data):
    """what was read, as a value of the specification"""
    from pdfmajor.parser.PDFStream import PDFStream
    from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
    if x is None:
        return -1
    if isinstance(x, PDFObjRef):
        return 500 + x.objid
    if isinstance(x, PDFStream):
        n = x.get('V')
        ok = isinstance(n, int) and x.get_data() == data.get(n - 300) and x.get_data() == data.get(n - 300)
        return n if ok else -3
    if isinstance(x, dict):
        return x.get('V') if isinstance(x.get('V'), int) else -4
    if isinstance(x, list):
        return x[0] if len(x) == 1 and isinstance(x[0], int) else -4
    if isinstance(x, bytes):
        return int(x)
    return x if isinstance(x, int) else -4


def observe(case):
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFStream.PDFObjRef import PDFObjRef
    from pdfmajor.parser.PDFStream import resolve1
    from pdfmajor.execptions import PDFObjectNotFound
    pdf, data = build(case['doc'], case['seed'])
    out = []
    for caching, ops in case['runs']:
        doc = PDFDocument(PDFParser(io.BytesIO(pdf)), caching=caching)
        obs = []
        for op, o in ops:
            e = {'op': op, 'o': o, 'v': -2, 'exc': 'none'}
            try:
                x = doc.getobj(o) if op == 'get' else resolve1(PDFObjRef(doc, o, 0))
                e['v'] = code(x, o, data)
            except PDFObjectNotFound:
                e['v'] = -1
            except Exception as ex:
                e['exc'] = type(ex).__name__
            obs.append(e)
        out.append({'caching': caching, 'obs': obs})
    return {'runs': out}


def ops(rng, n, k):
    return [(rng.choice(['get', 'get', 'resolve']), rng.randrange(1, n + 2)) for _ in range(k)]


def random_doc(rng):
    n = rng.randrange(3, 13)
    doc = []
    strs = rng.sample(range(1, n + 1), rng.randrange(1, 4))
    for o in range(1, n + 1):
        if o in strs:
            d = {'k': 'str', 'to': rng.choice([0, rng.randrange(1, n + 2), rng.randrange(1, n + 2)]), 'at': 0}
        else:
            k = rng.choice(['val', 'val', 'val', 'ref', 'ref', 'off', 'orphan', 'none'])
            d = {'k': k, 'to': rng.randrange(1, n + 2) if k == 'ref' else 0,
                 'at': rng.choice([0, rng.choice(strs), rng.choice(strs), rng.randrange(1, n + 1)]) if k == 'val' else 0}
        doc.append(d)
    for d in doc:       # an object stream is never given by way of a reference
        if d['at'] and doc[d['at'] - 1]['k'] == 'ref':
            d['at'] = 0
    for s in strs:      # the object streams stay small enough for any Length
        mem = [d for d in doc if d['k'] == 'val' and d['at'] == s]
        for d in mem[5:]:
            d['at'] = 0
    return doc
