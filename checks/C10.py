"""Form XObjects: nesting, placement, inherited and isolated graphics state, own or inherited resources; images."""
import interp_check as ic
from interp import op
from C07 import world_page

PROJ = ['box', 'color', 'width', 'path', 'glyphbox', 'font', 'src']
REQ = ['Invoke', 'Return', 'Paint', 'ShowText', 'SetColor', 'LineWidth', 'Concat']


def page():
    p = world_page()
    base = p['res']['xo']['Fm0']
    base['prog'] = [o for o in base['prog'] if o['o'] != 'Q']      # deliberately unbalanced
    # with the fonts of its caller, having no resources of its own
    base['prog'] += [op('BT'), op('Tf', [5000], 'F0'), op('Tj', s=[{'k': 's', 'v': 0, 'b': [65]}]), op('ET')]
    none = {'fonts': {}, 'cs': {}, 'xo': {}}
    inner = dict(base, matrix=[0, 1, -1, 0, 0, 1000], bbox=[0, 0, 4000, -2000], own=True, res={
        'fonts': {'F0': dict(p['res']['fonts']['F0'], name='InnerFont', w=[-1] * 65 + [1000] + [-1] * 190)}, 'cs': {}, 'xo': {}},
        prog=[op('BT'), op('Tf', [5000], 'F0'), op('Tj', s=[{'k': 's', 'v': 0, 'b': [65]}]), op('ET'), op('w', [9000])])
    img = {'k': 'image', 'src': [3, 2], 'data': [7, 0, 255, 10, 13, 65], 'bbox': [0, 0, 0, 0], 'matrix': [1, 0, 0, 1, 0, 0], 'own': False, 'res': none, 'prog': []}
    outer = dict(base, matrix=[2, 0, 0, 1, 500, -500], bbox=[-1000, 0, 3000, 4000], own=True,
                 res={'fonts': {}, 'cs': {}, 'xo': {'In': inner, 'Im': img}},
                 prog=[op('Do', n='In'), op('cm', [1, 0, 0, 2, 0, 0]), op('Do', n='In'), op('Do', n='Im'),
                       op('m', [0, 0]), op('l', [1000, 1000]), op('S')])
    p['res']['xo'] = {'Fm0': base, 'Fm1': outer, 'Im0': img}
    return p


STMTS = [
    [op('cm', [1, -1, 1, 1, 10000, 500])],
    [op('rg', [1000, 200, 0])],
    [op('RG', [0, 1000, 400]), op('w', [2500])],
    [op('q'), op('cm', [1, 0, 0, 2, 0, 0]), op('Do', n='Fm0'), op('Q')],
    [op('re', [1000, 2000, 3000, 4500]), op('B')],
    [op('BT'), op('Tf', [10000], 'F0'), op('Tj', s=[{'k': 's', 'v': 0, 'b': [65, 66]}]), op('ET')],
    [op('Do', n='Fm0')],
    [op('Do', n='Fm1')],
    [op('Do', n='Im0')],
]


def run(c):
    p = page()
    ic.run_generated(c, p, STMTS, [4, 5, 6, 7, 8, 9], 2, c.n(4, 5), PROJ)
    foc = [{'form': 1, 'do': 8, 'q': 0, 'Q': 0, 'depth': 2}, {'form': 1, 'do': 8, 'q': 0, 'Q': 0, 'depth': 3, 'cm': 3, 'shear': True},
           {'form': 1, 'do': 8, 'depth': 2, 'cm': 4, 'shear': True},
           {'form': 1, 'do': 8, 'q': 0, 'Q': 0, 'depth': 2, 'color': 5, 'space': 4, 'w': 4, 'text': 1}]
    ic.run_random(c, c.n(700, 7000), foc, PROJ, required=REQ)
    c.assumptions += ['whether Q restores colours and line width is left open here (the recorded deviation belongs to C07)',
                      'text state is not inherited by a form: a form selects its own font before showing text']
