"""Text objects: position, advance, boxes and content of every glyph shown."""
import interp_check as ic
from interp import op
from C07 import world_page

PROJ = ['glyphbox', 'font']
REQ = ['BeginText', 'EndText', 'TextParam', 'SetFont', 'MoveText', 'ShowText', 'Concat', 'Save', 'Restore']


def s(*b):
    return {'k': 's', 'v': 0, 'b': list(b)}


def n(v):
    return {'k': 'n', 'v': v, 'b': []}


# every statement is legal inside one text object; BT/ET wrap the whole program
STMTS = [
    [op('Tj', s=[s(65, 32, 66)])],
    [op('TJ', s=[s(65), n(120), s(66, 67), n(-40)])],
    [op('TJ', s=[n(-200), s(32)])],
    [op("'", s=[s(66)])],
    [op('"', [1500, 500], s=[s(32, 65)])],
    [op('Td', [10000, -2500])],
    [op('TD', [-500, -12000])],
    [op('Tm', [0, 1, -1, 0, 30000, 40500])],
    [op('T*')],
    [op('TL', [14000])],
    [op('Tc', [1000])],
    [op('Tw', [2500])],
    [op('Tz', [50000])],
    [op('Ts', [-3000])],
    [op('Tf', [20000], 'F0')],
    [op('ET'), op('BT')],
    [op('ET'), op('cm', [2, 0, 0, 2, 1000, 0]), op('BT')],
    [op('Tj', s=[s(65)]), op('ET')],
]


def run(c):
    p = world_page()
    # a text object is opened by the first statement
    ic.run_generated(c, p, [[op('BT'), op('Tf', [10000], 'F0')]] + STMTS, [len(STMTS) + 1], 3, c.n(4, 5), PROJ, first=[1])
    ic.run_generated(c, p, [[op('BT'), op('Tf', [10500], 'F0')]] + STMTS, [len(STMTS) + 1], 5, 12, PROJ, first=[1],
                     simulate=(c.n(1500, 12000), 60))
    foc = [{'text': 10, 'path': 0, 'cm': 2, 'do': 0}, {'text': 8, 'q': 3, 'Q': 3, 'cm': 4, 'path': 1},
           {'text': 6, 'form': 1, 'do': 4, 'path': 0}]
    ic.run_random(c, c.n(900, 10000), foc, PROJ, required=REQ)
    c.assumptions += ['text matrices keep glyph boxes upright (multiples of 90 degrees, reflections, scalings)',
                      'simple fonts with an explicit width table and descriptor; horizontal writing']
