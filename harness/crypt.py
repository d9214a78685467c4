"""Encrypted documents written with an independent implementation of the standard security handler (for Crypt.tla)."""
import hashlib, random, struct, zlib
import interp
from pdfgen import ser, Name, Ref, Stream

PAD = bytes([40, 191, 78, 94, 78, 117, 138, 65, 100, 0, 78, 86, 255, 250, 1, 8, 46, 46, 0, 182, 208, 104, 62, 128, 47, 12, 169,
             254, 100, 83, 105, 122])


def rc4(key, data):
    s = list(range(256))
    j = 0
    for i in range(256):
        j = (j + s[i] + key[i % len(key)]) & 255
        s[i], s[j] = s[j], s[i]
    i = j = 0
    out = bytearray()
    for c in data:
        i = (i + 1) & 255
        j = (j + s[i]) & 255
        s[i], s[j] = s[j], s[i]
        out.append(c ^ s[(s[i] + s[j]) & 255])
    return bytes(out)


def aes_cbc(key, iv, data, pad=True):
    from Crypto.Cipher import AES
    if pad:
        n = 16 - len(data) % 16
        data += bytes([n]) * n
    return AES.new(key, AES.MODE_CBC, iv).encrypt(data)


def md5(b):
    return hashlib.md5(b).digest()


class Handler:
    """Encrypts pieces of one document."""

    def __init__(self, d, r):
        self.s = s = d['s']
        self.r = r
        self.meta = d['meta']
        self.user = d['user']
        self.owner = d['owner'] or d['user']
        self.id = [bytes(r.randrange(256) for _ in range(16)), bytes(r.randrange(256) for _ in range(16))]
        p = r.choice([0, r.randrange(2 ** 32)]) | 0xfffff0c0
        p = (p & ~0x13) | r.choice([0, 4, 8, 12, 32, 36]) & ~3
        p = (p & ~0x10) | (0x10 if d['perm'] else 0)
        self.p32 = p & 0xffffffff
        self.pval = self.p32 if r.random() < .3 else self.p32 - 2 ** 32
        if s == 'AESV3':
            self.v5()
        else:
            self.old()

    def old(self):
        s, r = self.s, self.r
        self.rev = {'R2': 2, 'R3': 3}.get(s, 4)
        if s == 'bad':
            self.rev = r.choice([2, 3, 4])
        self.n = {2: 5, 3: r.choice([5, 7, 10, 16, 16, 16])}.get(self.rev, 16)
        padded = lambda b: (bytes(b) + PAD)[:32]
        k = md5(padded(self.owner))
        if self.rev >= 3:
            for _ in range(50):
                k = md5(k)
        k = k[:self.n]
        o = rc4(k, padded(self.user))
        if self.rev >= 3:
            for i in range(1, 20):
                o = rc4(bytes(c ^ i for c in k), o)
        h = padded(self.user) + o + struct.pack('<I', self.p32) + self.id[0]
        if self.rev >= 4 and not self.meta:
            h += b'\xff\xff\xff\xff'
        key = md5(h)
        if self.rev >= 3:
            for _ in range(50):
                key = md5(key[:self.n])
        self.key = key = key[:self.n]
        if self.rev == 2:
            u = rc4(key, PAD)
        else:
            u = rc4(key, md5(PAD + self.id[0]))
            for i in range(1, 20):
                u = rc4(bytes(c ^ i for c in key), u)
            u += bytes(r.randrange(256) for _ in range(16))
        self.dict = {'Filter': Name('Standard'), 'O': o, 'U': u, 'P': self.pval, 'R': self.rev}
        if self.rev == 2:
            self.dict['V'] = 1
        elif self.rev == 3:
            self.dict['V'] = 1 if self.n == 5 and r.random() < .3 else 2
            if self.n != 5 or r.random() < .5:
                self.dict['Length'] = self.n * 8
        else:
            self.dict['V'] = 4
            self.filters({'V2': 'V2', 'AESV2': 'AESV2', 'bad': 'AESV2'}.get(s))
            if r.random() < .6:
                self.dict['Length'] = 128

    def filters(self, cfm):
        r, d = self.r, self.dict
        if cfm is None:
            cf = {}
            if r.random() < .5:
                d['StmF'] = d['StrF'] = Name('Identity')
            if r.random() < .3:
                cf['Unused'] = {'CFM': Name('V2'), 'AuthEvent': Name('DocOpen')}
        else:
            name = r.choice(['StdCF', 'StdCF', 'Mine'])
            cf = {name: {'CFM': Name(cfm), 'AuthEvent': Name('DocOpen'), 'Length': 32 if cfm == 'AESV3' else 16}}
            d['StmF'] = d['StrF'] = Name(name)
        d['CF'] = cf
        if not self.meta:
            d['EncryptMetadata'] = False
        elif r.random() < .3:
            d['EncryptMetadata'] = True

    def v5(self):
        r = self.r
        rb = lambda n: bytes(r.randrange(256) for _ in range(n))
        utf = lambda pw: ''.join(map(chr, pw)).encode()[:127]
        sha = lambda b: hashlib.sha256(b).digest()
        self.key = rb(32)
        vs, ks = rb(8), rb(8)
        u = sha(utf(self.user) + vs) + vs + ks
        ue = aes_cbc(sha(utf(self.user) + ks), bytes(16), self.key, False)
        vs, ks = rb(8), rb(8)
        o = sha(utf(self.owner) + vs + u) + vs + ks
        oe = aes_cbc(sha(utf(self.owner) + ks + u), bytes(16), self.key, False)
        if r.random() < .3:
            o, u = o + bytes(127 - 48), u + bytes(127 - 48)
        self.dict = {'Filter': Name('Standard'), 'V': 5, 'R': 5, 'O': o, 'U': u, 'OE': oe, 'UE': ue, 'P': self.pval, 'Perms': rb(16)}
        if r.random() < .7:
            self.dict['Length'] = 256
        self.rev = 5
        self.filters('AESV3')

    def spoil(self):
        r, d = self.r, self.dict
        k = r.randrange(6)
        if k == 0:
            d['Filter'] = Name('Other.Security')
        elif k == 1:
            d['V'] = r.choice([3, 6, 0])
        elif k == 2:
            d['R'] = r.choice([6, 7, 1])
        else:
            d['V'], d['R'] = 4, 4
            d['CF'] = {'StdCF': {'CFM': Name('AESV2')}}
            d['StmF'] = d['StrF'] = Name('StdCF')
            if k == 3:
                d['CF']['StdCF']['CFM'] = Name('XYZ')
            elif k == 4:
                d['StmF'] = d['StrF'] = Name('NoSuch')
            else:
                d['StrF'] = Name('Identity')

    def enc(self, num, gen, data):
        s = self.s
        if s == 'Identity':
            return data
        if s == 'AESV3':
            return self.aes(self.key, data)
        k = self.key + struct.pack('<I', num)[:3] + struct.pack('<I', gen)[:2]
        if s == 'AESV2':
            k += b'sAlT'
        k2 = md5(k)[:min(self.n + 5, 16)]
        return self.aes(k2, data) if s == 'AESV2' else rc4(k2, data)

    def aes(self, key, data):
        iv = bytes(self.r.randrange(256) for _ in range(16))
        return iv + aes_cbc(key, iv, data)

    def walk(self, num, gen, x):
        if isinstance(x, Name):
            return x
        if isinstance(x, (bytes, bytearray)):
            return self.enc(num, gen, bytes(x))
        if isinstance(x, list):
            return [self.walk(num, gen, y) for y in x]
        if isinstance(x, dict):
            return {k: self.walk(num, gen, y) for k, y in x.items()}
        return x


def text(r):
    n = r.choice([0, 1, 2, 5, 15, 16, 17, 31, 32, 40, 100])
    return bytes(r.choice([r.randrange(256), r.randrange(32, 127), 40, 41, 92, 13, 10, 16, 1]) for _ in range(n))


def value(r, i):
    """An object with strings somewhere."""
    def any_(depth):
        k = r.randrange(7 if depth else 4)
        if k < 3:
            return text(r)
        if k == 3:
            return r.choice([None, True, 7, -2.5, Name('N'), Ref(1)])
        if k in (4, 5):
            return [any_(depth - 1) for _ in range(r.randrange(4))]
        return {'K%d' % j: any_(depth - 1) for j in range(r.randrange(4))}
    k = r.randrange(4)
    if k == 0:
        return text(r)
    if k == 1:
        return [i, text(r), any_(3)]
    return {'I': i, 'T': text(r), 'X': any_(3), 'Contents': text(r)}


def build(d, seed):
    """(file, plain) with plain: object number -> (strings part, data or None), by index into d['objs']."""
    r = random.Random(seed)
    h = Handler(d, r)
    big = r.choice([0, 0, 250, 65600])
    nums = [10 + i + (big if r.random() < .7 else 0) for i in range(len(d['objs']))]
    gens = [0 if o['k'] in ('member', 'cont', 'xref') else r.choice([0, 0, 1, 255, 256, 65534]) for o in d['objs']]
    xref_stream = any(o['k'] == 'member' for o in d['objs']) or r.random() < .5
    plain = {}
    out = bytearray(b'%PDF-1.6\n%\xe2\xe3\xcf\xd3\n')
    pos, comp = {}, {}
    bodies = {}
    for i, o in enumerate(d['objs'], 1):
        v = value(r, i)
        n, g = nums[i - 1], gens[i - 1]
        k = o['k']
        if k in ('plain', 'member'):
            plain[i] = (v, None)
        else:
            data = bytes(r.choice([r.randrange(256), 65, 66]) for _ in range(r.choice([0, 1, 15, 16, 17, 40, 200])))
            attrs = {'A': text(r), 'B': [text(r), {'C': text(r)}]} if k in ('stream', 'xref', 'cont') else {}
            attrs['Q'] = i
            if k == 'meta':
                attrs.update(Type=Name('Metadata'), Subtype=Name('XML'))
            if k == 'xref':
                attrs['Type'] = Name('XRef')
            plain[i] = (attrs, data)
        bodies[i] = plain[i]
    for i, o in enumerate(d['objs'], 1):
        if o['k'] == 'cont':
            ms = [j for j, x in enumerate(d['objs'], 1) if x['k'] == 'member' and x['at'] == i]
            head, off, parts = [], 0, []
            for idx, j in enumerate(ms):
                b = ser(bodies[j][0], r)
                parts.append(b)
                head += [nums[j - 1], off]
                off += len(b) + 1
                comp[nums[j - 1]] = (nums[i - 1], idx)
            hb = (' '.join(map(str, head)) + ' ').encode()
            attrs = dict(bodies[i][0], Type=Name('ObjStm'), N=len(ms), First=len(hb))
            plain[i] = bodies[i] = (attrs, hb + b' '.join(parts))

    def put(n, g, body):
        pos[n] = (len(out), g)
        out.extend(b'%d %d obj\n' % (n, g) + body + b'\nendobj\n')
    content = b'%d 0 5 5 re f' % (7 + len(d['objs']))
    pg = {'Type': Name('Page'), 'Parent': Ref(2), 'MediaBox': [0, 0, 600, 800], 'Contents': Ref(4), 'Resources': {}, 'LastModified': b'D:2020'}
    z = zlib.compress(content) if r.random() < .5 else content
    fd = {'Filter': Name('FlateDecode')} if z is not content else {}
    order = [('sys', 1), ('sys', 2), ('sys', 3), ('sys', 4)] + [('obj', i) for i in range(1, len(d['objs']) + 1)]
    r.shuffle(order)
    encref = 6 if r.random() < .6 else None
    if encref:
        order.insert(r.randrange(len(order) + 1), ('enc', 6))
    if d['s'] == 'bad':
        h.spoil()
    edict = dict(h.dict)
    if 'CF' in edict and r.random() < .3:
        order.append(('cf', 7))
        edict['CF'] = Ref(7)
    sysobj = {1: {'Type': Name('Catalog'), 'Pages': Ref(2), 'Lang': b'en'}, 2: {'Type': Name('Pages'), 'Kids': [Ref(3)], 'Count': 1}, 3: pg}
    for kind, i in order:
        if kind == 'enc':
            put(6, 0, ser(edict, r))
        elif kind == 'cf':
            put(7, 0, ser(h.dict['CF'], r))
        elif kind == 'sys' and i != 4:
            put(i, 0, ser(h.walk(i, 0, sysobj[i]), r))
        elif kind == 'sys':
            put(4, 0, ser(Stream(h.enc(4, 0, z), fd), r))
        else:
            o = d['objs'][i - 1]
            n, g = nums[i - 1], gens[i - 1]
            v, data = bodies[i]
            if o['k'] == 'member':
                continue
            if data is None:
                put(n, g, ser(h.walk(n, g, v), r))
                continue
            attrs = v if o['k'] == 'xref' else h.walk(n, g, v)
            if r.random() < .5:
                zd = zlib.compress(data)
                attrs = dict(attrs, Filter=Name('FlateDecode'))
            else:
                zd = data
            if o['k'] != 'xref' and not (o['k'] == 'meta' and not d['meta']):
                zd = h.enc(n, g, zd)
            st = Stream(zd, attrs)
            if r.random() < .3:
                st.d['Length'] = Ref(8)
                st.d['Length'] = len(zd)
            put(n, g, ser(st, r))
    tr = {'Root': Ref(1), 'ID': h.id, 'Encrypt': Ref(6) if encref else edict}
    if r.random() < .3:
        tr['Info'] = Ref(1)
    start = len(out)
    if not xref_stream:
        out += b'xref\n0 1\n0000000000 65535 f \n'
        for n in sorted(pos):
            out += b'%d 1\n%010d %05d n \n' % ((n,) + pos[n])
        tr['Size'] = max(pos) + 1
        out += b'trailer\n' + ser(tr, r) + b'\n'
    else:
        pos[9] = (start, 0)
        ent = {n: (1, p, g) for n, (p, g) in pos.items()}
        ent.update({n: (2, c, k) for n, (c, k) in comp.items()})
        data = b''.join(bytes([t]) + a.to_bytes(4, 'big') + b.to_bytes(2, 'big') for _, (t, a, b) in sorted(ent.items()))
        dd = {'Type': Name('XRef'), 'W': [1, 4, 2], 'Index': [x for n in sorted(ent) for x in (n, 1)], 'Size': max(ent) + 1}
        dd.update(tr)
        out += b'9 0 obj\n' + ser(Stream(data, dd), r) + b'\nendobj\n'
    out += b'startxref\n%d\n%%%%EOF\n' % start
    return bytes(out), plain, nums


def same(a, b):
    """plain value b against what was read, a"""
    from pdfmajor.parser.PDFStream import PDFObjRef
    from pdfmajor.parser.PSStackParser import PSLiteral
    if isinstance(b, Ref):
        return isinstance(a, PDFObjRef) and a.objid == b.n
    if isinstance(b, Name):
        return isinstance(a, PSLiteral) and a.name in (str(b), str(b).encode())
    if isinstance(b, dict):
        b = {k: v for k, v in b.items() if v is not None}
        return isinstance(a, dict) and all(k in a and same(a[k], v) for k, v in b.items()) and set(a) - set(b) <= {'Length', 'Filter'}
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, bytes):
        return type(a) is bytes and a == b
    return a == b


OUT = {'PDFPasswordIncorrect': 'refused', 'PDFTextExtractionNotAllowed': 'denied', 'PDFEncryptionError': 'unsupported'}


def observe(case):
    from pdfmajor.interpreter import PDFInterpreter
    from pdfmajor.parser.PDFParser import PDFParser
    from pdfmajor.parser.PDFDocument import PDFDocument
    import io
    d = case['d']
    pdf, plain, nums = build(d, case['seed'])
    pw = ''.join(map(chr, d['pw']))
    if pw == '' and case['seed'].endswith('0'):
        pw = None
    o = {'open': 'open', 'doc': 'open', 'page': 'none', 'got': []}

    def go(path):
        try:
            items = [list(p) for p in PDFInterpreter(path, password=pw, check_extractable=d['check'], caching=d['caching'])]
            ok = len(items) == 1 and len(items[0]) == 1 and round(items[0][0].x0, 3) == 7 + len(d['objs'])
            o['page'] = 'plain' if ok else 'other'
        except Exception as e:
            o['open'] = OUT.get(type(e).__name__, type(e).__name__)
    interp.run_bytes(pdf, go)
    try:
        doc = PDFDocument(PDFParser(io.BytesIO(pdf)), pw, caching=d['caching']) if pw is not None or case['seed'][-2:] < '5' \
            else PDFDocument(PDFParser(io.BytesIO(pdf)), caching=d['caching'])
    except Exception as e:
        o['doc'] = OUT.get(type(e).__name__, type(e).__name__)
        return o
    if o['open'] == 'denied':
        return o
    for e in d['script']:
        v, data = plain[e['o']]
        try:
            x = doc.getobj(nums[e['o'] - 1])
            if e['op'] == 'data':
                good = x.get_data() == data
            else:
                good = same(x if data is None else x.attrs, v) and (data is None) == (not hasattr(x, 'attrs'))
            o['got'].append('plain' if good else 'other')
        except Exception as ex:
            o['got'].append(type(ex).__name__)
    return o


def pws():
    """Passwords of the enumeration, as code points."""
    a32 = [97 + i % 26 for i in range(32)]
    return [[], [117, 115, 101, 114], [111, 119], a32, a32 + [33], a32[:31], [40, 191, 78], [233, 252, 255], [9731, 233],
            [97] * 126 + [98, 99], [97] * 126 + [98, 100]]


def random_doc(rng):
    s = rng.choice(['R2', 'R3', 'R3', 'V2', 'AESV2', 'AESV2', 'Identity', 'AESV3', 'AESV3', 'bad'])
    latin = s != 'AESV3'
    pool = [p for p in pws() if not latin or all(c < 256 for c in p)]

    def pw():
        if rng.random() < .5:
            return rng.choice(pool)
        return [rng.randrange(32, 256 if latin else 0x3000) for _ in range(rng.choice([1, 3, 8, 31, 32, 33, 60, 130]))]
    user, owner = pw(), pw()
    att = rng.choice([user, owner, pw(), user + [33], owner[:-1], user[:32], owner[:32], [], rng.choice(pws())])
    objs = []
    for _ in range(rng.randrange(1, 9)):
        k = rng.choice(['plain', 'plain', 'stream', 'stream', 'meta', 'xref', 'cont', 'member', 'member'])
        conts = [i for i, o in enumerate(objs, 1) if o['k'] == 'cont']
        if k == 'member' and not conts:
            k = 'cont'
        objs.append({'k': k, 'at': rng.choice(conts) if k == 'member' else 0})
    ops = []
    for _ in range(rng.randrange(0, 12)):
        i = rng.randrange(len(objs))
        op = 'data' if objs[i]['k'] not in ('plain', 'member') and rng.random() < .5 else 'get'
        ops.append({'op': op, 'o': i + 1})
    return {'s': s, 'user': user, 'owner': owner, 'pw': att, 'perm': rng.random() < .6, 'check': rng.random() < .6,
            'meta': rng.random() < .6 if s in ('V2', 'AESV2', 'AESV3') else True, 'caching': rng.random() < .6, 'objs': objs, 'script': ops}
