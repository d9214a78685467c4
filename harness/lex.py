"""Inputs for the tokenizer and observations of it."""
import io

WS = [b' ', b' ', b' ', b'\n', b'\r\n', b'\r', b'\t', b'\x0c', b'\x00', b'  ']
ALPHA = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


class Gen:
    def __init__(self, rng):
        self.r = rng

    def tok(self):
        """(bytes, needs a separator before, needs one after)"""
        r = self.r
        k = r.randrange(12)
        if k == 0:
            n = r.choice([0, 1, 7, 42, 4096, 65535, 99999999])
            return r.choice([b'', b'', b'+', b'-']) + b'0' * r.choice([0, 0, 0, 2]) + str(n).encode(), 1, 1
        if k == 1:
            i, f = r.choice(['', '0', '3', '12', '999']), r.choice(['', '0', '5', '25', '062', '125'])
            if not i and not f:
                i = '4'
            return r.choice([b'', b'', b'+', b'-']) + (i + '.' + f).encode(), 1, 1
        if k in (2, 3):
            out = b'/'
            for _ in range(r.choice([0, 1, 2, 3, 5])):
                if r.random() < .3:
                    c = r.choice([32, 35, 40, 47, 37, 0x41, 0x5f, 0x7a, 0xc3, 0xe9, 255])
                    h = '%02x' % c if r.random() < .5 else '%02X' % c
                    out += b'#' + h.encode()
                else:
                    out += bytes([r.choice(list(ALPHA) + list(b'0123456789._-+*\'"!@$&:;=?^`|~\\,'))])
            return out, 0, 1
        if k in (4, 5, 6):
            return self.string(), 0, 0
        if k == 7:
            h = ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(2 * r.randrange(5)))
            if r.random() < .12:
                h += '7'
            out = b'<'
            for ch in h:
                if r.random() < .15:
                    out += r.choice(WS)
                out += ch.encode()
            return out + r.choice([b'', b'', b' ', b'\n']) + b'>', 0, 0
        if k == 8:
            w = r.choice([b'true', b'false', b'null', b'obj', b'endobj', b'R', b'stream', b'T*', b'b*', b'd0', b'BI', b'Q', b'trueX', b'Tj', b'fals'])
            return w, 1, 1
        if k == 9:
            return r.choice([b"'", b'"']), 1, 1
        if k == 10:
            return r.choice([b'<<', b'>>', b'[', b']', b'{', b'}']), 0, 0
        return b'%' + bytes(r.choice(b'abc()<>/%[] \\x0') for _ in range(r.randrange(6))) + r.choice([b'\n', b'\r', b'\r\n']), 0, 0

    def string(self):
        r = self.r

        def body(d):
            out = b''
            for _ in range(r.randrange(7)):
                x = r.random()
                if x < .3:
                    out += bytes([r.choice(ALPHA)])
                elif x < .42 and d < 3:
                    out += b'(' + body(d + 1) + b')'
                elif x < .62:
                    out += b'\\' + r.choice([b'n', b'r', b't', b'b', b'f', b'(', b')', b'\\', b'\n', b'\r', b'\r\n', b'x', b'8', b'/', b' '])
                elif x < .8:
                    o = r.choice([0, 1, 5, 7, 0o40, 0o53, 0o101, 0o377, 0o400, 0o777])
                    n = r.choice(['%o', '%02o', '%03o'])
                    out += b'\\' + (n % o).encode()[-3:] + r.choice([b'', b'', b'8', b'0', b'1', b'\\'b'n'])
                else:
                    out += bytes([r.choice(b' \n\t%/<>[]{}#\x00\xff\x80:')])
            return out
        return b'(' + body(1) + b')'

    def stream(self, n=None):
        r = self.r
        out = b''
        after = 0
        for _ in range(n or r.randrange(1, 14)):
            t, b4, aft = self.tok()
            if after and b4 or r.random() < .5:
                out += r.choice(WS)
                if r.random() < .15:
                    out += b'% c\n'
            out += t
            after = aft
            if t[:1] == b'%':
                after = 0
        if r.random() < .4:
            out += r.choice(WS)
        return out

    def soup(self):
        r = self.r
        a = r.choice([b'()\\01a\n', b'<>0 af/', b'/#4 1(]', b'+-.1 0/[', b'%\r\n a(', b'true false', b'<<>>[]{} '])
        return bytes(r.choice(a) for _ in range(r.randrange(1, 18)))

    def lines(self, n=None):
        r = self.r
        return b''.join(r.choice([b'\n', b'\r', b'\r\n', b'a', b'bc', b'startxref', b'', b' ']) for _ in range(n or r.randrange(1, 20)))


def enc(tok, pos):
    from pdfmajor.parser.PSStackParser import PSLiteral, PSKeyword
    def bs(x):
        return list(x.encode('utf-8', 'surrogateescape')) if isinstance(x, str) else list(x)
    if isinstance(tok, bool):
        return {'p': pos, 'k': 'bool', 'v': int(tok)}
    if isinstance(tok, int):
        return {'p': pos, 'k': 'int', 'v': tok} if abs(tok) < 2**31 else {'p': pos, 'k': 'bigint', 'v': 0}
    if isinstance(tok, float):
        s = tok * 10000
        if abs(s) < 2**31 and abs(s - round(s)) < 1e-3:
            return {'p': pos, 'k': 'real', 'v': round(s)}
        return {'p': pos, 'k': 'otherreal', 'v': 0}
    if isinstance(tok, (bytes, bytearray)):
        return {'p': pos, 'k': 'str', 'v': list(tok)}
    if isinstance(tok, PSLiteral):
        return {'p': pos, 'k': 'name', 'v': bs(tok.name)}
    if isinstance(tok, PSKeyword):
        return {'p': pos, 'k': 'kw', 'v': bs(tok.name)}
    return {'p': pos, 'k': type(tok).__name__, 'v': 0}


def parser(data, buf):
    from pdfmajor.parser.PSStackParser import PSBaseParser
    if buf is None:
        return PSBaseParser(io.BytesIO(data))
    return type('P', (PSBaseParser,), {'BUFSIZ': buf})(io.BytesIO(data))


def tokens(p):
    from pdfmajor.execptions import PSEOF
    out, exc = [], 'none'
    try:
        while len(out) < 3000:
            pos, t = p.nexttoken()
            out.append(enc(t, pos))
    except PSEOF:
        pass
    except Exception as e:
        exc = type(e).__name__
    return out, exc


def observe(case):
    """case: {data, bufs, pads, seeks, lines}"""
    from pdfmajor.execptions import PSEOF
    data = case['data']
    runs = []
    base = None
    for b in case['bufs']:
        p = parser(data, b)
        t, e = tokens(p)
        base = base or t
        runs.append({'toks': t, 'exc': e, 'off': 0, 'from': 1, 'how': 'bufsiz %s' % b})
        for s in case['seeks']:
            if base:
                i = s % len(base)
                p.seek(base[i]['p'])
                t, e = tokens(p)
                runs.append({'toks': t, 'exc': e, 'off': 0, 'from': i + 1, 'how': 'seek to token %d' % (i + 1)})
    for pad in case['pads']:
        p = parser(pad + data, None)
        t, e = tokens(p)
        runs.append({'toks': t, 'exc': e, 'off': len(pad), 'from': 1, 'how': 'after %d bytes' % len(pad)})
    o = {'runs': runs}
    if case['lines']:
        o['lines'], o['rlines'] = [], []
        for b in case['bufs']:
            p = parser(data, b)
            ls = []
            try:
                while len(ls) < 3000:
                    ls.append(p.nextline())
            except PSEOF:
                pass
            o['lines'].append({'l': [list(x[1]) for x in ls], 'p': [x[0] for x in ls]})
            o['rlines'].append([list(x) for x in parser(data, b).revreadlines()])
    return o


def make_case(rng, data, lines=False):
    pads = []
    for _ in range(2):
        k = 4096 * rng.choice([1, 1, 2]) - rng.randrange(0, max(1, len(data)) + 1)
        pads.append(rng.choice([b' ' * k, b'%' + b'x' * (k - 2) + b'\n', b'\n' * k]))
    return {'data': data, 'bufs': [None, 1, rng.choice([2, 3]), rng.choice([4, 5, 7])], 'pads': pads,
            'seeks': [rng.randrange(1000)], 'lines': lines}
