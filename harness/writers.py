"""Calls on the JSON and YAML writers, and what the written text says (for Calls.tla)."""
import decimal, json, os, tempfile

SPECIAL = ['', ' ', '"', '\\', '\\n', '\n', '\r\n', '\t', '\x00', '\x1f', '\x7f', '\x85', '\u2028', '\ufeff', '\ud800', '\udfff', '\U0001f600',
           '\u00e9', '\u6f22\u5b57', '\ufffe', '/', '<a>&amp;', "'", ',', ':', '{', '}', '[', ']', '#', '- ', '? ', ': ', ' #', '&a', '*a', '!t', '|',
           '>', '%', '@', '`', 'null', 'true', 'No', 'off', '~', '1', '01', '1.5', '1e5', '-', '...', '---', 'a: b', 'a #b', ' a', 'a ', '1_000',
           '0x1F', '1:30', '2020-01-01', '=', '<<', '.inf', 'y', 'key', 'text', '\u200b', '\xa0', '+1', '.5', '-7', '-0', '007', '20', '0']


def codes(s):
    return [ord(c) for c in s]


def canon(x):
    """<<negative, exponent>> and digits, as Calls!Canon"""
    d = x if isinstance(x, decimal.Decimal) else decimal.Decimal(x if isinstance(x, str) else repr(x))
    sign, digits, e = d.as_tuple()
    s = ''.join(map(str, digits)).lstrip('0')
    t = s.rstrip('0')
    if not t:
        return [0, 0]
    return [sign, e + len(s) - len(t)] + codes(t)


def random_string(rng):
    # two halves of a character in a row are that character
    return _random_string(rng).encode('utf-16-le', 'surrogatepass').decode('utf-16-le', 'surrogatepass')


def _random_string(rng):
    k = rng.random()
    if k < .4:
        return rng.choice(SPECIAL)
    if k < .6:
        return ''.join(rng.choice(SPECIAL) for _ in range(rng.randrange(1, 5)))
    if k < .8:
        return ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0, 0x250), rng.randrange(0x10000), rng.randrange(0x10000, 0x110000)]))
                       for _ in range(rng.randrange(1, 9)))
    return ''.join(rng.choice('abcdef XYZ0123.,-') for _ in range(rng.randrange(1, 12)))


def random_number(rng):
    return rng.choice([0, 1, -1, 20, rng.randrange(-10 ** 6, 10 ** 6), rng.random(), -rng.random() * 1000, rng.randrange(10 ** 4) / 100, 1e-7, -2.5e-9,
                       1e16, 1.5e300, 1e22, 100.0, 0.1 + 0.2, -0.0, 5e-324, 2 ** 40, 123456.0])


def random_calls(rng, n, arrays_in_arrays=True):
    """calls with Python values: (op, key, value)"""
    cs, st = [], ['o']
    pool = [random_string(rng) for _ in range(6)]
    used = [set()]
    while st:
        if n <= 0 or (len(st) > 1 and rng.random() < .2):
            cs.append(('end', '', None))
            st.pop()
            used.pop()
            continue
        n -= 1
        op = rng.choices(['obj', 'arr', 'str', 'num', 'place'], [2, 2, 4, 2, 1])[0]
        if op == 'arr' and st[-1] == 'a' and not arrays_in_arrays:
            op = 'obj'
        key = ''
        if st[-1] == 'o':
            key = rng.choice(pool) if rng.random() < .3 else random_string(rng) + str(n)
        v = random_string(rng) if op == 'str' else random_number(rng) if op == 'num' else None
        if op == 'place':
            v = random_plain(rng, 3, top=True)
        cs.append((op, key, v))
        if op in ('obj', 'arr'):
            st.append(op[0])
            used.append(set())
    return cs


def random_plain(rng, depth, top=False):
    k = rng.randrange(4) if depth and not top else 0 if top else 2
    if k == 0:
        return {random_string(rng): random_plain(rng, depth - 1) for _ in range(rng.randrange(4))}
    if k == 1:
        return [random_plain(rng, depth - 1) for _ in range(rng.randrange(4))]
    return rng.choice([random_string(rng), random_string(rng), random_number(rng), None, True, False])


def plain_calls(key, v):
    """a value as calls of the specification"""
    if isinstance(v, dict):
        out = [{'op': 'obj', 'key': codes(key), 'val': []}]
        for k, x in v.items():
            out += plain_calls(k, x)
        return out + [{'op': 'end', 'key': [], 'val': []}]
    if isinstance(v, (list, tuple)):
        out = [{'op': 'arr', 'key': codes(key), 'val': []}]
        for x in v:
            out += plain_calls('', x)
        return out + [{'op': 'end', 'key': [], 'val': []}]
    if v is None or isinstance(v, bool):
        return [{'op': 'lit', 'key': codes(key), 'val': codes({None: 'null', True: 'true', False: 'false'}[v])}]
    if isinstance(v, str):
        return [{'op': 'str', 'key': codes(key), 'val': codes(v)}]
    return [{'op': 'num', 'key': codes(key), 'val': canon(v)}]


def spec_calls(cs):
    out = []
    for op, key, v in cs:
        if op in ('obj', 'arr', 'end'):
            out.append({'op': op, 'key': codes(key), 'val': []})
        else:
            out += plain_calls(key, v)
    return out


def tree_calls(cs):
    """calls of the specification back to calls with values"""
    out = []
    for c in cs:
        key = ''.join(map(chr, c['key']))
        v = None
        if c['op'] == 'str':
            v = ''.join(map(chr, c['val']))
        elif c['op'] == 'num':
            n = c['val']
            v = 0 if len(n) == 2 else float(('-' if n[0] else '') + ''.join(map(chr, n[2:])) + 'e%d' % n[1])
            v = int(v) if v == int(v) else v
        elif c['op'] == 'lit':
            v = {'true': True, 'false': False, 'null': None}[''.join(map(chr, c['val']))]
        out.append((c['op'], key, v))
    return out


def write_json(cs, codec):
    from pdfmajor.converters.writers.json import JSONMaker
    fd, path = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    try:
        with JSONMaker(path, codec=codec) as top:
            def block(o, is_obj, it):
                for op, key, v in it:
                    if op == 'end':
                        return
                    a = (key,) if is_obj else ()
                    if op == 'obj':
                        with o.object(*a) as ch:
                            block(ch, True, it)
                    elif op == 'arr':
                        with o.array(*a) as ch:
                            block(ch, False, it)
                    elif op == 'str':
                        o.string(*a, v)
                    elif op == 'num':
                        o.number(*a, v)
                    elif op == 'lit':
                        o.number(*a, v) if v is None else o.place_object(*a, v)
                    else:
                        o.place_object(*a, v)
            block(top, True, iter(cs))
        return open(path, 'rb').read()
    finally:
        os.unlink(path)


def observe_json(case):
    try:
        b = write_json(case['cs'], case['codec'])
        return {'text': codes(b.decode(case['codec'])), 'exc': 'none'}
    except Exception as e:
        return {'text': [], 'exc': type(e).__name__}


def events(text):
    """the events Python's own reader sees"""
    def walk(x):
        if isinstance(x, tuple):
            out = [['{', []]]
            for k, v in x[1]:
                out += [['key', codes(k)]] + walk(v)
            return out + [['}', []]]
        if isinstance(x, list):
            return [['[', []]] + [e for v in x for e in walk(v)] + [[']', []]]
        if isinstance(x, str):
            return [['str', codes(x)]]
        if x is None or isinstance(x, bool):
            return [['lit', codes({None: 'null', True: 'true', False: 'false'}[x])]]
        return [['num', canon(x)]]
    return walk(json.loads(text, object_pairs_hook=lambda ps: ('obj', ps), parse_float=decimal.Decimal))


# ------------------------------------------------------------ XML and HTML
TAGS = ['a', 'page', 'char-block', 'h1', 'X', 'b.c', '_u']


def legal_text(s, fmt):
    """text that may be written as it is"""
    ok = lambda c: c in '\t\n' or ' ' <= c <= '~' or '\xa0' <= c < '\ud800' or '\ue000' <= c < '\ufdd0' or '\ufdf0' <= c <= '\ufffd' or \
        (c > '\uffff' and ord(c) & 0xfffe != 0xfffe)
    return ''.join(c if ok(c) else '?' for c in s)


def random_xml_calls(rng, fmt, n):
    cs, st = [], []

    def pairs(k):
        names = rng.sample(TAGS, k)
        return [(x, random_string(rng) if rng.random() < .8 else random_number(rng)) for x in names]
    while True:
        if (n <= 0 or rng.random() < .25) and st:
            cs.append({'op': 'end', 'tag': '', 'attrs': [], 'css': [], 'exact': False, 'val': ''})
            st.pop()
        elif not st and cs and (n <= 0 or fmt == 'xml'):
            return cs
        else:
            n -= 1
            op = rng.choice(['open', 'open', 'text', 'single']) if st and not st[-1] else 'open' if not st else 'text'
            if op == 'text':
                cs.append({'op': 'text', 'tag': '', 'attrs': [], 'css': [], 'exact': False, 'val': legal_text(random_string(rng), fmt)})
                continue
            css = pairs(rng.randrange(1, 4)) if fmt == 'html' and rng.random() < .4 else []
            cs.append({'op': op, 'tag': rng.choice(TAGS), 'attrs': pairs(rng.choice([0, 0, 1, 2, 4])), 'css': css, 'exact': op == 'open' and rng.random() < .3, 'val': ''})
            if op == 'open':
                st.append(cs[-1]['exact'])


def spec_xml(cs):
    f = lambda ps: [[codes(k), codes(str(v))] for k, v in ps]
    return [{'op': c['op'], 'tag': codes(c['tag']), 'attrs': f(c['attrs']), 'css': f(c['css']), 'exact': c['exact'], 'val': codes(c['val'])} for c in cs]


def xml_calls(cs):
    s = lambda x: ''.join(map(chr, x))
    f = lambda ps: [(s(k), s(v)) for k, v in ps]
    return [{'op': c['op'], 'tag': s(c['tag']), 'attrs': f(c['attrs']), 'css': f(c['css']), 'exact': c['exact'], 'val': s(c['val'])} for c in cs]


def write_markup(cs, fmt, codec):
    from pdfmajor.converters.writers.xml import XMLMaker
    from pdfmajor.converters.writers.html import HTMLMaker
    fd, path = tempfile.mkstemp(suffix='.' + fmt)
    os.close(fd)
    try:
        with (XMLMaker if fmt == 'xml' else HTMLMaker)(path, codec=codec) as x:
            def block(it, exact):
                for c in it:
                    if c['op'] == 'end':
                        return
                    if c['op'] == 'text':
                        t = c['val'].replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
                        if exact:
                            x.write(t, lineend='', deep_space='')
                        else:
                            x.write(t)
                        continue
                    a = [c['tag']]
                    if c['attrs'] or c['css']:
                        a.append(dict(c['attrs']))
                    if c['css']:
                        a.append(dict(c['css']))
                    if c['op'] == 'single':
                        x.singleton(*a)
                    else:
                        with x.elm(*a, no_additional_char=c['exact']):
                            block(it, c['exact'])
            block(iter(cs), False)
        return open(path, 'rb').read()
    finally:
        os.unlink(path)


def observe_markup(case):
    try:
        b = write_markup(case['cs'], case['fmt'], case['codec'])
        return {'text': codes(b.decode(case['codec'])), 'exc': 'none'}
    except Exception as e:
        return {'text': [], 'exc': type(e).__name__}


# ------------------------------------------------------------ YAML
def random_yaml_calls(rng, n):
    """as random_calls: op "str" is string(), "raw" write() of a string, "num" write(), "flow" write() of a value with parts"""
    cs = []
    for op, key, v in random_calls(rng, n, arrays_in_arrays=False):
        cs.append([op, key, v])
    # what kind of container every call is in
    st, out, mute = ['o'], [], 0
    for op, key, v in cs:
        if op == 'end':
            st.pop()
        elif op in ('str', 'num', 'place'):
            if op == 'place':
                op = rng.choice(['place', 'flow'])
                v = v if op == 'place' else random_plain(rng, 3)
                if op == 'place' and st[-1] == 'o' and rng.random() < .3:
                    op, v = 'places', [random_plain(rng, 2) for _ in range(rng.randrange(4))]
            elif op == 'str':
                op = 'raw' if st[-1] == 'a' else rng.choice(['raw', 'str'])
        else:
            st.append(op[0])
        out.append((op, key, v))
    return out


def spec_yaml(cs):
    out = []
    for op, key, v in cs:
        if op in ('obj', 'arr', 'end'):
            out.append({'op': op, 'key': codes(key), 'val': []})
        elif op in ('str', 'raw'):
            out.append({'op': op, 'key': codes(key), 'val': codes(v)})
        else:
            x = plain_calls(key, v)
            if op == 'flow' and len(x) == 1 or op in ('place', 'places'):
                # strings given to write() one by one
                d = 0
                for c in x:
                    d += (c['op'] in ('obj', 'arr')) - (c['op'] == 'end')
                    if c['op'] == 'str' and d < 2:
                        c['op'] = 'raw'
            out += x
    return out


def tree_yaml(cs):
    """calls of the specification back to calls with values; words with write()"""
    out = []
    for op, key, v in tree_calls([dict(c, op='str' if c['op'] == 'raw' else c['op']) for c in cs]):
        out.append(({'str': 'raw', 'lit': 'num'}.get(op, op), key, v))
    return out


def write_yaml(cs, codec):
    from pdfmajor.converters.writers.yaml import YAMLMaker
    fd, path = tempfile.mkstemp(suffix='.yaml')
    os.close(fd)
    try:
        with YAMLMaker(path, codec=codec) as top:
            def block(o, is_obj, it):
                for op, key, v in it:
                    if op == 'end':
                        return
                    a = (key,) if is_obj else ()
                    if op == 'obj':
                        with o.object(*a) as ch:
                            block(ch, True, it)
                    elif op == 'arr':
                        with o.array(*a) as ch:
                            block(ch, False, it)
                    elif op == 'str':
                        getattr(o, 'string', o.write)(*a, v)
                    elif op == 'place':
                        o.place_object(*a, v)
                    elif op == 'places':
                        o.place_array(*a, v)
                    else:
                        o.write(*a, v)
            block(top, True, iter(cs))
        return open(path, 'rb').read()
    finally:
        os.unlink(path)


def observe_yaml(case):
    try:
        b = write_yaml(case['cs'], case['codec'])
        return {'text': codes(b.decode(case['codec'])), 'exc': 'none'}
    except Exception as e:
        return {'text': [], 'exc': type(e).__name__}


def yaml_events(text):
    """the events PyYAML sees"""
    import yaml
    out = []

    def scalar(n):
        v = n.value
        if n.tag.endswith(':null'):
            return ['lit', codes('null')]
        if n.tag.endswith(':bool'):
            return ['lit', codes(v.lower())]
        if n.tag.endswith((':int', ':float')):
            return ['num', canon(v)]
        if n.tag.endswith(':str'):
            return ['str', codes(v)]
        return [n.tag, codes(v)]

    def walk(n):
        if isinstance(n, yaml.MappingNode):
            out.append(['{', []])
            for k, v in n.value:
                out.append(['key', codes(k.value)])
                walk(v)
            out.append(['}', []])
        elif isinstance(n, yaml.SequenceNode):
            out.append(['[', []])
            for v in n.value:
                walk(v)
            out.append([']', []])
        else:
            out.append(scalar(n))
    walk(yaml.compose(text, Loader=yaml.SafeLoader))
    return out
