"""Documents with images, and the files the real code exports them to (for ImageFile.tla)."""
import io, os, random, re, tempfile
import crypt, filters
from pdfgen import PDF, Name, Ref, Stream, Raw, ser
from interp import run_bytes

COMPONENTS = {'gray': 1, 'rgb': 3, 'cmyk': 4, 'mask': 1, 'indexed': 1, 'calgray': 1, 'calrgb': 3, 'lab': 3, 'icc1': 1, 'icc3': 3, 'icc4': 4, 'sep': 1, 'devn': 2}
ENC = {'hex': filters.enc_hex, 'a85': filters.enc_a85, 'rl': filters.enc_rl, 'lzw': filters.enc_lzw, 'opaque': filters.enc_flate}


class Secret(PDF):
    """encrypted with the empty password"""

    def build(self, r):
        h = crypt.Handler({'s': r.choice(['R2', 'R3', 'V2', 'AESV2', 'AESV3']), 'meta': True, 'user': [], 'owner': [111], 'perm': True}, r)
        for n, o in list(self.objs.items()):
            if isinstance(o, Stream):
                self.objs[n] = Stream(h.enc(n, 0, o.data), h.walk(n, 0, o.d))
            else:
                self.objs[n] = h.walk(n, 0, o)
        self.trailer = {'ID': h.id, 'Encrypt': h.dict}
        return PDF.build(self, r)


def space(r, pdf, im, inline):
    fam, k = im['fam'], im['bits']
    if fam in ('gray', 'rgb', 'cmyk'):
        n = {'gray': ('DeviceGray', 'G'), 'rgb': ('DeviceRGB', 'RGB'), 'cmyk': ('DeviceCMYK', 'CMYK')}[fam][inline and r.random() < .7]
        v = Name(n) if inline or r.random() < .7 else [Name(n)]
    elif fam == 'indexed':
        n = r.choice([('DeviceRGB', 3), ('DeviceGray', 1), ('DeviceCMYK', 4)])
        v = [Name('Indexed'), Name(n[0]), 1, bytes(r.randrange(256) for _ in range(2 * n[1]))]
    elif fam in ('calgray', 'calrgb', 'lab'):
        v = [Name({'calgray': 'CalGray', 'calrgb': 'CalRGB', 'lab': 'Lab'}[fam]), {'WhitePoint': [0.95, 1, 1.09]}]
    elif fam == 'sep':
        v = [Name('Separation'), Name('Spot'), Name('DeviceRGB'), {'FunctionType': 2, 'N': 1, 'Domain': [0, 1]}]
    elif fam == 'devn':
        v = [Name('DeviceN'), [Name('A'), Name('B')], Name('DeviceRGB'), {'FunctionType': 2, 'N': 1, 'Domain': [0, 1]}]
    else:
        v = [Name('ICCBased'), pdf.add(Stream(b'profile', {'N': pdf.add(int(fam[3])) if r.random() < .2 else int(fam[3])}))]
        if r.random() < .3:
            v[0] = pdf.add(v[0])
    return v if inline or r.random() < .7 else pdf.add(v)


def entries(r, pdf, im, inline):
    """the dictionary, with every way to say it"""
    def key(long, short):
        return short if inline and r.random() < .7 else long

    def num(v):
        return pdf.add(v) if not inline and r.random() < .15 else v
    d = {key('Width', 'W'): num(im['w']), key('Height', 'H'): num(im['h'])}
    if im['fam'] == 'mask':
        d[key('ImageMask', 'IM')] = num(True)
    else:
        d[key('ColorSpace', 'CS')] = space(r, pdf, im, inline)
    if im['fam'] != 'mask' or r.random() < .5:
        d[key('BitsPerComponent', 'BPC')] = num(im['bits'])
    return d


def encoded(r, im, chain):
    d = bytes(im['data'])
    for f in reversed(chain):
        d = ENC[f](d, r)
    names = [Name(r.choice(filters.NAMES[f])) for f in chain] + [Name(r.choice(['DCTDecode', 'DCT']))] * im['jpeg']
    return d, names[0] if len(names) == 1 and r.random() < .6 else names


def document(case):
    r = random.Random(case['seed'])
    pdf = Secret() if case['secret'] else PDF()
    contents, xobjs = [b''] * case['pages'], {}
    for i, x in enumerate(case['ims']):
        im = x['im']
        place = b'q %d 0 0 %.2f %d 20 cm ' % (x['sx'], x['sy'], 1000 * i)
        if x['inline']:
            d = entries(r, pdf, im, True)
            data = bytes(im['data'])
            # in hexadecimal the end of the data cannot be mistaken
            d[r.choice(['F', 'Filter'])] = Name(r.choice(['AHx', 'ASCIIHexDecode']))
            if r.random() < .5:
                d['Filter' if 'Filter' in d else 'F'] = [d.pop('F', None) or d.pop('Filter')]
            body = b'BI ' + b' '.join(ser(Name(k)) + b' ' + ser(v) for k, v in d.items()) + b' ID ' + data.hex().encode() + b'> EI'
        else:
            d = dict(entries(r, pdf, im, False), Type=Name('XObject'), Subtype=Name('Image'))
            data, names = encoded(r, im, x['chain'])
            if names:
                d['Filter'] = pdf.add(names) if r.random() < .1 else names
            items = list(d.items())
            r.shuffle(items)
            xobjs['Im%d' % i] = pdf.add(Stream(data, dict(items)))
            body = b'/Im%d Do' % i
        for p in x['pages']:
            contents[p] += place + body + b' Q\n'
    tree = pdf.reserve()
    kids = [pdf.add({'Type': Name('Page'), 'Parent': tree, 'MediaBox': [0, 0, 600, 800], 'Resources': {'XObject': xobjs}, 'Contents': pdf.add(Stream(c))}) for c in contents]
    pdf.add({'Type': Name('Pages'), 'Kids': kids, 'Count': len(kids)}, tree)
    pdf.root = pdf.add({'Type': Name('Catalog'), 'Pages': tree})
    return pdf.build(r)


def observe(case):
    """per image: the name and contents of its file after all were exported"""
    from pdfmajor.interpreter import PDFInterpreter, LTImage
    from PIL import Image
    r = random.Random(case['seed'])
    n = len(case['ims'])
    none = {'form': '', 'b': 0, 'w': 0, 'h': 0, 'own': False}
    out = [{'exc': 'not delivered', 'name': none, 'f': [], 'conv': []} for _ in range(n)]

    def go(path):
        with tempfile.TemporaryDirectory(prefix='vimg-') as d:
            got = []
            for page in PDFInterpreter(path, caching=case['caching']):
                for it in page:
                    if isinstance(it, LTImage):
                        got.append((round(it.x0 / 1000), it))
            if case['shuffle']:
                r.shuffle(got)
            where = {}
            for i, it in got:
                x = case['ims'][i]
                if x['read']:
                    it.stream.get_data()
                base = 'given%d' % i if x['given'] else None
                try:
                    for _ in range(1 + x['again']):
                        where[i] = it.save_image(d, base) if base else it.save_image(d)
                    out[i]['exc'] = 'none'
                except Exception as e:
                    out[i]['exc'] = type(e).__name__
            paths = list(where.values())
            for i, p in where.items():
                name = os.path.basename(p)
                m = re.match(r'(.*?)(?:\.b(\d+))?(?:\.?w(\d+)h(\d+))?\.(jpg|bmp|img)\Z', name)
                if m:
                    out[i]['name'] = {'form': m.group(5), 'b': int(m.group(2) or 0), 'w': int(m.group(3) or 0), 'h': int(m.group(4) or 0),
                                      'own': os.path.dirname(p) == d and paths.count(p) == 1 and (m.group(1) == 'given%d' % i or not case['ims'][i]['given'])}
                with open(p, 'rb') as fp:
                    b = fp.read()
                out[i]['f'] = list(b)
                if case['ims'][i]['im']['jpeg'] and case['ims'][i]['im']['fam'] == 'cmyk':
                    j = Image.open(io.BytesIO(b))
                    j.load()
                    out[i]['conv'], out[i]['f'] = [j.size[0], j.size[1], len(j.getbands())], []
    try:
        run_bytes(document(case), go)
    except Exception as e:
        for o in out:
            if o['exc'] == 'not delivered':
                o['exc'] = type(e).__name__
    return {'os': out, 'exc': 'none'}


def jpeg(r, im):
    from PIL import Image
    mode = {'gray': 'L', 'rgb': 'RGB', 'cmyk': 'CMYK'}[im['fam']]
    i = Image.frombytes(mode, (im['w'], im['h']), bytes(r.randrange(256) for _ in range(im['w'] * im['h'] * len(mode if mode != 'L' else '1'))))
    b = io.BytesIO()
    i.save(b, 'JPEG')
    return list(b.getvalue())


def placed(r, im, inline=False, npages=1):
    return {'im': im, 'inline': inline, 'sx': r.choice([1, 10, 50, 300]), 'sy': r.choice([1, 7.25, 100.5]), 'chain': [] if inline else [r.choice(list(ENC)) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))],
            'pages': sorted(r.sample(range(npages), r.choice([1, 1, npages]))), 'read': r.random() < .3, 'again': r.random() < .2, 'given': r.random() < .3}


def random_image(r):
    fam = r.choice(['gray', 'gray', 'rgb', 'rgb', 'mask', 'mask'] + list(COMPONENTS))
    bits = 1 if fam == 'mask' else r.choice([1, 1, 8, 8, 8, 2, 4, 16])
    im = {'w': r.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33, r.randrange(1, 80)]), 'h': r.choice([1, 2, 3, 5, r.randrange(1, 20)]), 'bits': bits, 'fam': fam, 'n': COMPONENTS[fam],
          'jpeg': fam in ('gray', 'rgb', 'cmyk') and r.random() < .15}
    if im['jpeg']:
        im['bits'] = 8
        im['data'] = jpeg(r, im)
    else:
        size = (im['w'] * im['n'] * bits + 7) // 8 * im['h']
        k = r.random()
        size = max(1, size - r.randrange(1, 9)) if k < .08 else size + r.randrange(1, 9) if k < .16 else size
        im['data'] = [r.choice([0, 255, r.randrange(256), r.randrange(256)]) for _ in range(size)]
    return im


def random_case(r):
    np = r.choice([1, 1, 2, 3])
    ims = []
    for _ in range(r.choice([1, 2, 4])):
        im = random_image(r)
        if len(im['data']) > 4000:
            im['w'], im['h'] = 9, 4
            im['data'] = jpeg(r, im) if im['jpeg'] else im['data'][:(9 * im['n'] * im['bits'] + 7) // 8 * 4]
        ims.append(placed(r, im, not im['jpeg'] and im['fam'] in ('gray', 'rgb', 'cmyk', 'mask') and r.random() < .2, np))
    if len(ims) > 1 and r.random() < .2:
        # the same samples in another size
        im = dict(ims[0]['im'])
        if not im['jpeg']:
            im['w'], im['h'] = im['h'], im['w']
            ims[1] = placed(r, im, ims[0]['inline'], np)
    return {'ims': ims, 'pages': np, 'secret': r.random() < .15, 'shuffle': r.random() < .5, 'caching': r.random() < .7, 'seed': r.randrange(1 << 30)}
