"""Graphics state: q/Q, cm, colours, colour spaces, line width."""
import interp, interp_check as ic
from interp import op

PROJ = ['box', 'color', 'width', 'glyphbox', 'font']
REQ = ['Save', 'Restore', 'Concat', 'LineWidth', 'NoEffect', 'SetSpace', 'SetColor', 'Paint', 'ShowText', 'Invoke', 'Return']


def world_page():
    u = [-1] * 256
    for i in range(32, 127):
        u[i] = i
    font = {'name': 'GenFont', 'w': [-1] * 65 + [500, 600] + [-1] * 189, 'u': u, 'dw': 300, 'desc': -200, 'h': 900}
    form = {'k': 'form', 'src': [], 'bbox': [0, 0, 10000, 10000], 'matrix': [1, 0, 0, 1, 5000, 0], 'own': False,
            'res': {'fonts': {}, 'cs': {}, 'xo': {}},
            'prog': [op('q'), op('rg', [0, 0, 1000]), op('re', [0, 0, 1000, 1000]), op('f'), op('Q'),
                     op('re', [0, 0, 2000, 2000]), op('S'), op('q'), op('K', [0, 200, 400, 1000])]}
    res = {'fonts': {'F0': font}, 'cs': {'CsI': {'sp': 'ICCBased', 'n': 3}}, 'xo': {'Fm0': form}}
    return {'mb': [0, 0, 600000, 800000], 'rot': 0, 'res': res, 'prog': []}


STMTS = [
    [op('q')], [op('Q')],
    [op('cm', [0, 1, -1, 0, 10000, 20500])],
    [op('rg', [1000, 200, 0])],
    [op('RG', [0, 1000, 400])],
    [op('k', [0, 200, 400, 1000])],
    [op('cs', n='CsI'), op('scn', [200, 400, 600])],
    [op('w', [2500])],
    [op('Tc', [1000])],
    [op('re', [1000, 2000, 3000, 4500]), op('B')],
    [op('BT'), op('Tf', [10000], 'F0'), op('Tj', s=[{'k': 's', 'v': 0, 'b': [65, 66]}]), op('ET')],
    [op('Do', n='Fm0')],
]
LASTS = [10, 11, 12]


# text parameters under nested q and Q
SHOW = [op('BT'), op('Tj', s=[{'k': 's', 'v': 0, 'b': [65, 66]}]), op('ET')]
TSTMTS = [[op('Tf', [10000], 'F0')] + SHOW, [op('q')], [op('Q')], [op('Tc', [1000])], [op('Ts', [2000]), op('Tz', [200000])], SHOW]


def run(c):
    ic.run_generated(c, world_page(), TSTMTS, [6], 2, c.n(6, 8), PROJ, first=[1])
    ic.run_generated(c, world_page(), STMTS, LASTS, 2, c.n(4, 5), PROJ)
    if not c.quick:
        ic.run_generated(c, world_page(), STMTS, LASTS, 6, 14, PROJ, simulate=(3000, 60))
    foc = [{'q': 5, 'Q': 5, 'color': 5, 'space': 4, 'w': 3, 'text': 1}, {'q': 4, 'Q': 3, 'cm': 5, 'color': 3, 'shear': True},
           {'q': 5, 'Q': 5, 'color': 4, 'form': 1, 'do': 4, 'depth': 2}, {'inert': 4, 'space': 5, 'q': 4, 'Q': 4},
           {'q': 8, 'Q': 7, 'tparam': 8, 'text': 6, 'path': 1, 'color': 0, 'depth': 0, 'size': 30}]
    ic.run_random(c, c.n(1200, 12000), foc, PROJ, required=REQ)
    c.assumptions += ['operands are multiples of 1/1000 with integer linear matrix parts, so that every product is exact',
                      'sc/SC on a colour space set by name; colour values themselves are carried unscaled except rg/RG (0..255)']
