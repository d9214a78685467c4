"""Paths: every painting operator yields exactly one item of the right kind, box, points and rule."""
import interp_check as ic
from interp import op
from C07 import world_page

PROJ = ['box', 'path']
REQ = ['Construct', 'Rectangle', 'Paint', 'EndPath', 'Concat']

STMTS = [
    [op('m', [1000, 2000])],
    [op('m', [1000, -7500])],
    [op('l', [1000, 9000])],
    [op('l', [5000, 2000])],
    [op('l', [5000, 9000])],
    [op('c', [0, 0, 11000, 500, 3000, 4000])],
    [op('v', [7000, 0, -2000, 500])],
    [op('y', [0, 12000, 4500, 4500])],
    [op('h')],
    [op('re', [1000, 2000, 4000, 7000])],
    [op('re', [0, 0, -3000, 0])],
]
PAINT = ['S', 's', 'f', 'F', 'f*', 'B', 'B*', 'b', 'b*']


def run(c):
    p = world_page()
    p['rot'], p['mb'] = 90, [1000, 2000, 201000, 302000]
    start = [[op('m', [1000, 2000])], [op('re', [1000, 2000, 4000, 7000])], [op('cm', [0, 1, -1, 0, 500, 0]), op('m', [1000, 2000])]]
    st = start + STMTS + [[op(x)] for x in PAINT] + [[op('n'), op('m', [0, 0])]]
    lasts = list(range(len(start) + len(STMTS) + 1, len(start) + len(STMTS) + len(PAINT) + 1))
    # a painting operator must follow at least one segment: paints are final here
    ic.run_generated(c, p, st, lasts, 2, c.n(4, 5), PROJ, first=[1, 2, 3], stop=lasts)
    ic.run_generated(c, p, st, lasts, 5, 12, PROJ, first=[1, 2, 3], stop=lasts, simulate=(c.n(3000, 20000), 40))
    # every path with up to four corners out of nine: which of them are rectangles
    grid = [[op('l', [x, y])] for x in (1000, 5000, 9000) for y in (1000, 5000, 9000)]
    st = [[op('m', [1000, 5000])]] + grid + [[op('h'), op('f')], [op('s')]]
    ic.run_generated(c, world_page(), st, [11, 12], 2, 5, PROJ, first=[1], stop=[11, 12])
    foc = [{'path': 10, 'text': 0, 'cm': 3, 'shear': True}, {'path': 10, 'text': 0, 'q': 3, 'Q': 3, 'cm': 3, 'do': 1},
           {'path': 8, 'text': 1, 'form': 1, 'do': 4, 'depth': 2}]
    ic.run_random(c, c.n(1000, 10000), foc, PROJ, required=REQ)
    c.assumptions += ['the matrix does not change between the construction of a path and its painting (as PDF requires)',
                      'box of a path: the end points of its segments, in page space']
