"""Widths of simple and composite fonts (SimpleFont.tla, CidFont.tla)."""
import font_check


def run(c):
    font_check.simple(c, 'width', c.n(1, 3), c.n(1000, 20000), c.n(1000, 20000))
    font_check.composite(c, 'width', font_check.width_cases(c, c.n(4, 6), c.n(700, 20000)), c.n(1000, 20000))
