"""Documents in which objects are lost or references lead astray, and what is read from them (for Damage.tla)."""
import random, re, zlib
import interp
from pdfgen import ser, Name, Ref, Stream, Raw

WRONG = [b'/A 0 0 1 0 0 cm', b'(x) 1 2 3 re f', b'[] 7 1 1 re f', b'1 2 m (x) 2 l S', b'<< /B 2 >> 2 Td', b'[ 1 ] Do', b'null 1 m 2 2 l S',
         b'<< >> 1 l', b'(a) (b) (c) (d) re S', b'[ 1 2 ] 1 Tf']
OPS = {-9: WRONG, -1: [b'BT /F 5 Tf <41> Tj ET', b'BT /F 5 Tf (B) Tj ET'], -3: [b'foo', b'qq', b'BI0', b'nullx', b"re'"],
       -4: [b'(x) Tj', b'[(x)] TJ', b'[] TJ', b'() Tj'],
       -6: [b']', b'>>', b'}', b'] ]', b'>> ]'],
       -8: [b'<< /A >>', b'/T << /A 1 /B >> DP', b'[ << /A >> ] foo', b'<< [] 2 >>', b'<< << >> 2 >>']}
SHORT = [b'cm', b'7 m', b'1 2 3 re', b'c', b'1 l', b'w', b'/F Tf', b'Tf', b'Td', b'Tm', b'Do', b'cs', b'd', b'Tj', b'/P scn foo 7 l', b'/T BMC 1 2 3 re', b'/G gs w']
OPEN = [b'[', b'<<', b'(', b'[ 1 2', b'<< /A', b'<< /A 1', b'(a (b)', b'[ << /A 1 >>', b'<< /A [ 1', b'{ 1 [', b'[ (x']
STRING = [b'(', b'(a (b)', b'[ (x', b'<< /A (']
BAD = [b'<< /A 1 2 >>', b'<< /A [ 1 2', b'[ 1 2', b'<< [1] 2 >>', b'R', b'[ null 0 R ]', b'(abc', b'<< /A (x', b'>>', b']', b'', b'{ 1',
       b'<< [] 1 >>', b'stream\nxx\nendstream', b'<abc', b'<<', b'[ 1 0 R 2 R R ]', b'<< /Type /Page /Kids [ >>']
OTHER = [b'7', b'(s)', b'/Name', b'[ 1 2 ]', b'<< /A 1 >>', b'null', b'true', b'-.5', b'[]', b'<<>>', b'<00>', b'[ [ ] null ]']


def content(prog, r, OPEN=OPEN):
    out = []
    for x in prog:
        if x > 0:
            out.append(b'%d 0 5 5 re f' % x)
        elif x == 0:
            out.append(b'/X Do')
        elif x == -2:
            out.append(r.choice(SHORT))
        elif x == -5:
            out.append(b'BT' if out and out[-1].endswith(b' BT') else b'BT BT')
        elif x == -7:
            out.append(r.choice(OPEN))
        else:
            out.append(r.choice(OPS[x]))
    return r.choice([b'\n', b' ', b'\r\n']).join(out)


def body(i, o, r, num, openers):
    """the object itself"""
    def ind(v):
        return v
    d = {}
    if o['k'] == 'catalog':
        d = {'Type': Name('Catalog')}
        if o['kids']:
            d['Pages'] = Ref(o['kids'][0])
    elif o['k'] == 'pages':
        d = {'Type': Name('Pages'), 'Kids': [Ref(k) for k in o['kids']], 'Count': r.choice([0, 1, len(o['kids'])])}
    elif o['k'] == 'page':
        d = {'Type': Name('Page'), 'Vid': i, 'MediaBox': [0, 0, 600, 800]}
        if len(o['kids']) != 1 or r.random() < .5:
            d['Contents'] = [Ref(k) for k in o['kids']]
        else:
            d['Contents'] = Ref(o['kids'][0])
        if not o['kids'] and r.random() < .5:
            del d['Contents']
    elif o['k'] == 'res':
        if o['font']:
            d['Font'] = {'F': Ref(o['font'])}
        if o['form']:
            d['XObject'] = {'X': Ref(o['form'])}
        if r.random() < .3:
            d['ProcSet'] = [Name('PDF')]
    elif o['k'] == 'font':
        d = {'Type': Name('Font'), 'Subtype': Name('Type1'), 'BaseFont': Name('Helvetica')}
    elif o['k'] == 'num':
        return b'7'
    if o['res'] and o['k'] in ('pages', 'page', 'form'):
        d['Resources'] = Ref(o['res'])
    if o['k'] in ('stream', 'form'):
        if o['k'] == 'form':
            d.update({'Type': Name('XObject'), 'Subtype': Name('Form'), 'BBox': [0, 0, 600, 800]})
        data = content(o['prog'], r, openers)
        if r.random() < .3:
            data = zlib.compress(data)
            d['Filter'] = Name('FlateDecode')
        if num and r.random() < .6:
            # its length is in an object of its own
            d['Length'] = Ref(num)
            return ser(Stream(data, d)), len(data)
        return ser(Stream(data, d))
    items = list(d.items())
    r.shuffle(items)
    return ser(dict(items), r)


def build(d, seed):
    r = random.Random(seed)
    objs = d['objs']
    n = len(objs)
    num = next((i for i, o in enumerate(objs, 1) if o['k'] == 'num' and not o['up'] and o['st'] in ('ok', 'gone')), 0)
    numval = None
    # what closes nothing here would close an array or dictionary that is open
    openers = STRING if any(x in (-6, -8) for o in objs for x in o['prog']) else OPEN
    bodies = {}
    for i, o in enumerate(objs, 1):
        if o['k'] == 'objstm':
            continue
        b = body(i, o, r, num, openers)
        if isinstance(b, tuple):
            # only one stream has its length there
            b, numval = b
            num = 0
        if o['st'] == 'bad':
            b = r.choice(BAD)
        elif o['st'] == 'other':
            b = r.choice([x for x in OTHER if not (o['k'] == 'num' and x == b'7')])
        bodies[i] = b
    for i, o in enumerate(objs, 1):
        if o['k'] == 'num' and numval is not None and o['st'] == 'ok' and not o['up']:
            bodies[i] = b'%d' % numval
    comp = {}
    for i, o in enumerate(objs, 1):
        if o['k'] != 'objstm':
            continue
        inside = [j for j, x in enumerate(objs, 1) if x['up'] == i and x['st'] != 'gone']
        r.shuffle(inside)
        head, off = [], 0
        for k, j in enumerate(inside):
            head += [j, off]
            off += len(bodies[j]) + 1
            comp[j] = (i, k)
        h = ' '.join(map(str, head)).encode() + b' '
        data = h + b' '.join(bodies[j] for j in inside)
        sd = {'Type': Name('ObjStm'), 'N': len(inside), 'First': len(h)}
        if r.random() < .5:
            data = zlib.compress(data)
            sd['Filter'] = Name('FlateDecode')
        bodies[i] = ser(Stream(data, sd))
        if o['st'] == 'bad':
            bodies[i] = r.choice(BAD)
        elif o['st'] == 'other':
            bodies[i] = r.choice(OTHER)
    out = bytearray(b'%PDF-1.5\n%\xe2\xe3\xcf\xd3\n')
    pos = {}
    order = [i for i in bodies if not objs[i - 1]['up'] and objs[i - 1]['st'] != 'gone']
    r.shuffle(order)
    nl = r.choice([b'\n', b'\n', b'\r\n'])
    for i in order:
        pos[i] = len(out)
        out += b'%d 0 obj' % i + nl + bodies[i] + nl
        if r.random() < .9 or bodies[i] == b'':
            out += b'endobj' + nl
    stream = any(o['k'] == 'objstm' for o in objs) or r.random() < .3
    wrong = r.random() < d.get('scan', .3)
    for i, o in enumerate(objs, 1):
        if o['st'] == 'moved' and i in pos:
            pos[i] = r.choice([0, 3, len(out) + 10 ** 6, pos[i] + 3, max(pos[i] - 9, 0), r.choice(list(pos.values()))])
    start = len(out)
    size = n + 3
    tr = {'Root': Ref(d['root']), 'Size': size}
    absent = r.random() < .5

    def entry(i):
        if i in pos:
            return (1, pos[i], 0)
        if i in comp:
            return (2,) + comp[i]
        return None if absent and i else (0, 0, 65535 if not i else 1)
    if stream:
        xs = n + 2
        pos[xs] = start
        es = [entry(i) for i in range(n + 3)]
        idx, data = [], b''
        for i, e in enumerate(es):
            if e is None:
                continue
            if idx and idx[-2] + idx[-1] == i:
                idx[-1] += 1
            else:
                idx += [i, 1]
            data += bytes([e[0]]) + e[1].to_bytes(4, 'big') + e[2].to_bytes(2, 'big')
        tr.update({'Type': Name('XRef'), 'W': [1, 4, 2], 'Index': idx})
        out += b'%d 0 obj' % xs + nl + ser(Stream(data, tr)) + nl + b'endobj' + nl
    else:
        es = [entry(i) for i in range(n + 1)]
        out += b'xref\n'
        i = 0
        while i < len(es):
            if es[i] is None:
                i += 1
                continue
            j = i
            while j < len(es) and es[j] is not None:
                j += 1
            out += b'%d %d\n' % (i, j - i)
            for e in es[i:j]:
                out += b'%010d %05d %s \n' % (e[1], e[2], b'n' if e[0] else b'f')
            i = j
        out += b'trailer\n' + ser(tr) + b'\n'
    if wrong:
        # nothing tells where the table is
        out += r.choice([b'', b'startxref\n%d\n%%%%EOF\n' % (len(out) + 10 ** 6), b'startxref\nx\n%%EOF\n', b'startxref\n0\n%%EOF\n'])
    else:
        out += b'startxref\n%d\n%%%%EOF\n' % start
    return bytes(out)


def flat(its, out):
    from pdfmajor.interpreter.commands import LTRect, LTXObject, LTTextBlock
    for it in its:
        if isinstance(it, LTXObject):
            out.append(-2)
            flat(it, out)
            out.append(-3)
        elif isinstance(it, LTTextBlock):
            out.append(-1)
        elif isinstance(it, LTRect) and it.x0 == int(it.x0):
            out.append(int(it.x0))
        else:
            out.append(-9)


def observe(case):
    from pdfmajor.interpreter import PDFInterpreter

    def go(path):
        pages, err = [], ''
        try:
            for p in PDFInterpreter(path, **case.get('kw', {})):
                items, e = [], ''
                try:
                    for it in p:
                        flat([it], items)
                except Exception as x:
                    e = type(x).__name__
                pages.append({'n': p.page.attrs.get('Vid', -1), 'items': items, 'err': e})
        except Exception as x:
            err = type(x).__name__
        return {'out': pages, 'err': err}
    return interp.run_bytes(build(case['d'], case['seed']), go)


def obj(k, kids=(), res=0, prog=(), font=0, form=0, up=0):
    return {'k': k, 'st': 'ok', 'up': up, 'kids': list(kids), 'res': res, 'prog': list(prog), 'font': font, 'form': form}


def bases():
    """small documents for the enumeration"""
    a = [obj('catalog', [2]), obj('pages', [3, 4]), obj('page', [6], 5), obj('page', [7, 8], 5), obj('res', font=9, form=10),
         obj('stream', prog=[11, -1, 0, 12]), obj('stream', prog=[21, 0, -5]), obj('stream', prog=[-1, 22, -4, 23]), obj('font'), obj('form', prog=[31, -1]),
         obj('num')]
    b = [obj('catalog', [2], up=8), obj('pages', [3, 4], 5, up=8), obj('pages', [6], up=8), obj('page', [7], up=9), obj('res', font=0, form=7, up=8),
         obj('page', [10], up=9), obj('form', res=0, prog=[11, -1, 12]), obj('objstm'), obj('objstm'), obj('stream', prog=[21, -3, 22, -6, 23, -2, 24])]
    c = [obj('catalog', [2]), obj('pages', [3, 9]), obj('page', [4], 5), obj('stream', prog=[11, 0, 12, -7, 13]), obj('res', form=6),
         obj('form', res=7, prog=[21, 0, 22]), obj('res', form=8, font=11), obj('form', prog=[31, -1, -8, 32]), obj('page', [10], 5), obj('stream', prog=[41, -9]), obj('font')]
    return [{'root': 1, 'objs': x} for x in (a, b, c)]


def random_doc(r):
    objs = []

    def new(*a, **k):
        objs.append(obj(*a, **k))
        return len(objs)
    fonts = [new('font') for _ in range(r.choice([0, 1, 2]))]
    nforms = r.choice([0, 1, 2, 3])
    forms = []
    ress = []
    mark = [0]

    def prog(depth):
        out = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            x = r.choices([1, 0, -1, -2, -3, -4, -5, -6, -7, -8, -9], [10, 4, 3, .3, .6, .3, .3, .6, .3, .3, .3])[0]
            if x == 1:
                mark[0] += 1
                x = mark[0]
            out.append(x)
        return out
    for _ in range(nforms):
        ress.append(new('res', font=r.choice(fonts + [0]) if fonts else 0, form=r.choice(forms) if forms and r.random() < .7 else 0))
        forms.append(new('form', res=r.choice(ress + [0, 0]), prog=prog(1)))
    for _ in range(r.choice([0, 1, 2])):
        ress.append(new('res', font=r.choice(fonts + [0]) if fonts else 0, form=r.choice(forms) if forms and r.random() < .9 else 0))
    kids = []
    for _ in range(r.choice([1, 1, 2, 3])):
        level = []
        for _ in range(r.choice([1, 2, 3])):
            cs = [new('stream', prog=prog(0)) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
            level.append(new('page', cs, res=r.choice(ress) if ress and r.random() < .8 else 0))
        if r.random() < .5:
            kids.append(new('pages', level, res=r.choice(ress) if ress and r.random() < .3 else 0))
        else:
            kids += level
    root = new('catalog', [new('pages', kids, res=r.choice(ress) if ress and r.random() < .5 else 0)])
    if r.random() < .5:
        new('num')
    if r.random() < .5:
        # some objects in object streams
        cont = [new('objstm') for _ in range(r.choice([1, 2]))]
        for o in objs:
            if o['k'] in ('catalog', 'pages', 'page', 'res', 'font', 'num') and r.random() < .7:
                o['up'] = r.choice(cont)
    n = len(objs)
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5])):
        i = r.randrange(n)
        o = objs[i]
        x = r.randrange(3)
        if x == 0:
            o['st'] = r.choice(['gone', 'other'] if o['up'] else ['gone', 'other', 'bad', 'bad', 'moved', 'moved'])
        elif x == 1 and o['kids']:
            # anything but an object stream, which no one takes for contents
            t = r.choice([k for k in range(1, n + 2) if k > n or objs[k - 1]['k'] != 'objstm'])
            o['kids'][r.randrange(len(o['kids']))] = t
        elif x == 2:
            t = r.randrange(n + 2)
            if o['k'] in ('pages', 'page', 'form'):
                o['res'] = t
            elif o['k'] == 'res':
                o[r.choice(['font', 'form'])] = t
    if r.random() < .05:
        root = r.randrange(1, n + 1)
    return {'root': root, 'objs': objs}
