"""The command line and convert_file, run for real."""
import contextlib
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

import convdocs
import vlib
from pdfgen import PDF, Name, Stream

NAMES = ['doc.pdf', 'doc.v1.pdf', 'DOC.PDF', 'd.x/doc.pdf', 'my doc.pdf']
MARK = 'page-text-%d-\u00e9'


def document(doc):
    pdf = PDF()
    tree = pdf.reserve()
    font = pdf.add({'Type': Name('Font'), 'Subtype': Name('TrueType'), 'BaseFont': Name('F'), 'FirstChar': 0, 'LastChar': 255, 'Widths': [500] * 256,
                    'Encoding': Name('WinAnsiEncoding'),
                    'FontDescriptor': {'Type': Name('FontDescriptor'), 'FontName': Name('F'), 'Flags': 32, 'Ascent': 800, 'Descent': -200,
                                       'FontBBox': [0, -200, 1000, 800]}})
    kids = []
    for k in range(1, doc['n'] + 1):
        body = ('BT /F 10 Tf 10 10 Td (%s) Tj ET 0 0 m 5 5 l S' % (MARK % k)).encode('cp1252')
        kids.append(pdf.add({'Type': Name('Page'), 'Parent': tree, 'MediaBox': [0, 0, 100, 100], 'Resources': {'Font': {'F': font}},
                             'Contents': pdf.add(Stream(body))}))
    pdf.add({'Type': Name('Pages'), 'Kids': kids, 'Count': len(kids)}, tree)
    pdf.root = pdf.add({'Type': Name('Catalog'), 'Pages': tree})
    if doc['lock']:
        convdocs.encrypt(random.Random(1), pdf, b'secret' if doc['lock'] == 'user' else b'', doc['lock'] == 'print')
    return pdf.build()


PASSWORD = {'right': 'secret', 'wrong': 'public'}


def argv(req, path, out, order):
    opts = []
    if req['t']:
        opts.append([order.choice(['-t', '--output-type']), req['t']])
    if req['o']:
        opts.append([order.choice(['-o', '--output-file']), out])
    if req['p']:
        opts.append([order.choice(['-p', '--pagenos']), ','.join(map(str, req['p']))])
    if req['m']:
        opts.append([order.choice(['-m', '--maxpages']), str(req['m'])])
    if req['w']:
        opts.append([order.choice(['-P', '--password']), PASSWORD[req['w']]])
    if req['c']:
        opts.append([order.choice(['-c', '--codec']), req['c']])
    if req['d']:
        opts.append([order.choice(['-d', '--debug'])])
    if req['nc']:
        opts.append([order.choice(['-C', '--disable-caching'])])
    opts.append([path] * req['files'])
    order.shuffle(opts)
    return [x for o in opts for x in o]


def kwargs(req, out):
    kw = {}
    if req['t']:
        kw['out_type'] = req['t']
    if req['o']:
        kw['output_file'] = out
    if req['p']:
        kw['pagenos'] = [k - 1 for k in req['p']]
    if req['m']:
        kw['maxpages'] = req['m']
    if req['w']:
        kw['password'] = PASSWORD[req['w']]
    if req['c']:
        kw['codec'] = req['c']
    if req['d']:
        import logging
        kw['debug_level'] = logging.DEBUG
    if req['nc']:
        kw['caching'] = False
    return kw


def recognise(data, codec):
    """(format, page numbers) of an output"""
    codec = codec or 'utf-8'
    for fmt in ('json', 'xml', 'html', 'yaml', 'text'):
        try:
            if fmt == 'text':
                text = data.decode(codec)
                # one line per page, after its heading
                assert re.match(r'\s*\S*Page', text) or 'page-text' in text
                found = text
            else:
                found = ''.join(chr(x) for n in convdocs.READ[fmt](data, codec) if n['text'] for x in (n['text'] if n['k'] in ('char', 'block') else []))
                if fmt == 'yaml' and not found:
                    continue
            if fmt == 'html' and not data.decode(codec).lstrip().startswith('<html'):
                continue
            if fmt == 'html':
                # indented
                found = re.sub(r'\s', '', found)
            # the text of every page, and nothing else
            pages = [int(m.group(1)) for m in re.finditer(MARK.replace('%d', r'(\d+)'), found)]
            rest = re.sub(MARK.replace('%d', r'\d+'), '', found)
            if fmt != 'text' and rest:
                return fmt + ' with other text', pages
            return fmt, pages
        except Exception:
            continue
    return 'unknown', []


def snapshot(d):
    return {os.path.relpath(os.path.join(p, f), d): open(os.path.join(p, f), 'rb').read() for p, _, fs in os.walk(d) for f in fs}


def observe(case):
    """case: req, doc, seed, process (in a process of its own)"""
    req, order = case['req'], random.Random(case['seed'])
    top = tempfile.mkdtemp(prefix='vcli-')
    try:
        name = NAMES[req['name']]
        path = os.path.join(top, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        data = document(case['doc'])
        with open(path, 'wb') as fp:
            fp.write(data)
        os.mkdir(os.path.join(top, 'out'))
        out = os.path.join(top, 'out', 'result' + req['o']) if req['o'] not in ('', '-') else req['o']
        stdout, err = b'', ''
        if req['api']:
            from pdfmajor.converters import convert_file
            try:
                convert_file(path, **kwargs(req, out))
                ok = True
            except Exception as e:
                ok, err = False, type(e).__name__
        elif case['process']:
            r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(vlib.REPO, 'tools', 'pdfconvert.py')] + argv(req, path, out, order),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=vlib.REPO, PYTHONDONTWRITEBYTECODE='1'), cwd=top)
            ok, stdout, err = r.returncode == 0, r.stdout, r.stderr[-200:].decode('utf-8', 'replace')
        else:
            from tools import pdfconvert
            raw = io.BytesIO()
            text = io.TextIOWrapper(raw, encoding='utf-8', write_through=True)
            try:
                with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
                    ok = not pdfconvert.main(argv(req, path, out, order))
            except SystemExit as e:
                ok = not e.code
            except Exception as e:
                ok, err = False, type(e).__name__
            text.flush()
            stdout = raw.getvalue()
        after = snapshot(top)
        same_input = after.pop(name, None) == data
        beside = re.sub(r'\.[^./]*$', '.' + (req['t'] or 'html'), name)
        where, result = '', b''
        if out and out != '-' and os.path.relpath(out, top) in after:
            where, result = 'file', after.pop(os.path.relpath(out, top))
        elif stdout:
            where, result = 'stdout', stdout
        elif beside in after:
            where, result = 'beside', after.pop(beside)
        left = not after and not (where == 'file' and stdout)
        if not ok:
            left = left and where in ('', 'stdout')
            got = {'ok': False, 'where': '', 'type': '', 'pages': []}
        else:
            fmt, pages = recognise(result, req['c'])
            got = {'ok': True, 'where': where, 'type': fmt, 'pages': pages}
        return {'got': got, 'left': left, 'input': same_input, 'err': err}
    finally:
        shutil.rmtree(top)


def random_case(r):
    api = r.random() < .4
    req = {'api': api, 't': r.choice(['', '', 'text', 'html', 'xml', 'json', 'yaml'] + (['yml', 'pdf', 'HTML', 'tag'] if api else ['tag', 'pdf'])),
           'o': r.choice(['', '', '.html', '.xml', '.json', '.yaml', '.text', '.yml', '.txt'] + ([] if api else ['-', '.htm', '.dat', '-'])),
           'p': [] if r.random() < .5 else r.sample(range(1, 10), r.randrange(1, 6)), 'm': r.choice([0, 0, 1, 2, 3, 5, 9]), 'w': r.choice(['', '', 'right', 'wrong']),
           'd': r.random() < .15, 'nc': r.random() < .3, 'c': r.choice(['', '', 'utf-8', 'latin-1', 'utf-16']), 'files': 1, 'name': r.randrange(len(NAMES)) if api else 0}
    if api and req['o'] and r.random() < .6:
        req['o'] = '.' + (req['t'] or 'html')
    if not api and r.random() < .05:
        req['files'] = r.randrange(2, 4)
    if req['c'] == 'utf-16':
        req['c'] = 'utf-8'
    return {'req': req, 'doc': {'n': r.randrange(1, 8), 'lock': r.choice(['', '', '', 'user', 'user', 'print'])}, 'seed': r.randrange(1 << 30), 'process': r.random() < .04}
