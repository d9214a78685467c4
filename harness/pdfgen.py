"""Building PDF files byte by byte (no dependency on the code under test)."""
import random, zlib


class Name(str):
    pass


class Ref:
    def __init__(self, n, g=0):
        self.n, self.g = n, g

    def __repr__(self):
        return 'Ref(%d,%d)' % (self.n, self.g)


class Raw(bytes):
    """Pre-rendered object text."""


class Stream:
    def __init__(self, data, d=None, length=None):
        self.data, self.d, self.length = data, dict(d or {}), length


REGULAR = set(range(33, 127)) - set(b'()<>[]{}/%#')


def name_bytes(n):
    b = n.encode('latin-1')
    return b'/' + b''.join(bytes([c]) if c in REGULAR else b'#%02X' % c for c in b)


def str_bytes(b, rng=None):
    if rng is not None and rng.random() < 0.4:
        return b'<' + b.hex().encode() + b'>'
    out = bytearray(b'(')
    for c in b:
        if c in b'()\\':
            out += b'\\' + bytes([c])
        elif c == 13:
            out += b'\\r'
        elif c == 10:
            out += b'\\n'
        else:
            out.append(c)
    return bytes(out + b')')


def num_bytes(v):
    if isinstance(v, bool):
        return b'true' if v else b'false'
    if isinstance(v, int):
        return str(v).encode()
    s = ('%.6f' % v).rstrip('0').rstrip('.')
    return (s if s not in ('', '-0') else '0').encode()


def ser(o, rng=None):
    if isinstance(o, Raw):
        return bytes(o)
    if o is None:
        return b'null'
    if isinstance(o, (bool, int, float)):
        return num_bytes(o)
    if isinstance(o, Ref):
        return b'%d %d R' % (o.n, o.g)
    if isinstance(o, Name):
        return name_bytes(o)
    if isinstance(o, (bytes, bytearray)):
        return str_bytes(bytes(o), rng)
    if isinstance(o, (list, tuple)):
        return b'[' + b' '.join(ser(x, rng) for x in o) + b']'
    if isinstance(o, dict):
        return b'<<' + b' '.join(name_bytes(k) + b' ' + ser(v, rng) for k, v in o.items()) + b'>>'
    if isinstance(o, Stream):
        d = dict(o.d)
        if 'Length' not in d:
            d['Length'] = len(o.data) if o.length is None else o.length
        return ser(d, rng) + b'\nstream\n' + o.data + b'\nendstream'
    raise TypeError(type(o))


class PDF:
    """A classical-xref single-revision document."""

    def __init__(self, version=b'1.5'):
        self.objs = {}
        self.next = 1
        self.version = version
        self.root = None
        self.trailer = {}

    def reserve(self):
        n = self.next
        self.next += 1
        return Ref(n)

    def add(self, o, ref=None):
        if ref is None:
            ref = self.reserve()
        self.objs[ref.n] = o
        return ref

    def build(self, rng=None):
        out = bytearray(b'%PDF-' + self.version + b'\n%\xe2\xe3\xcf\xd3\n')
        pos = {}
        order = sorted(self.objs)
        if rng is not None:
            rng.shuffle(order)
        for n in order:
            pos[n] = len(out)
            out += b'%d 0 obj\n' % n + ser(self.objs[n], rng) + b'\nendobj\n'
        start = len(out)
        size = max(self.objs) + 1
        out += b'xref\n0 %d\n' % size
        for n in range(size):
            if n in pos:
                out += b'%010d %05d n \n' % (pos[n], 0)
            else:
                out += b'%010d %05d f \n' % (0, 65535)
        tr = {'Size': size, 'Root': self.root}
        tr.update(self.trailer)
        out += b'trailer\n' + ser(tr) + b'\nstartxref\n%d\n%%%%EOF\n' % start
        return bytes(out)


def flate(data):
    return Stream(zlib.compress(data), {'Filter': Name('FlateDecode')})


def simple_doc(pages, extra_root=None, rng=None, compress=False):
    """pages: list of (content bytes or list of contents, resources dict, extra page dict); returns PDF object."""
    pdf = PDF()
    tree = pdf.reserve()
    kids = []
    for (content, res, extra) in pages:
        parts = content if isinstance(content, list) else [content]
        refs = [pdf.add(flate(p) if compress else Stream(p)) for p in parts]
        d = {'Type': Name('Page'), 'Parent': tree, 'MediaBox': [0, 0, 600, 800],
             'Contents': refs if isinstance(content, list) else refs[0], 'Resources': res or {}}
        d.update(extra or {})
        kids.append(pdf.add(d))
    pdf.add({'Type': Name('Pages'), 'Kids': kids, 'Count': len(kids)}, tree)
    root = {'Type': Name('Catalog'), 'Pages': tree}
    root.update(extra_root or {})
    pdf.root = pdf.add(root)
    return pdf
