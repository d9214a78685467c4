"""Composite fonts: cutting strings by the CMap, text of CIDs, vertical layout (ToUnicode.tla, CidFont.tla)."""
import font_check


def run(c):
    font_check.composite(c, 'text', font_check.cmap_cases(c, c.n(2, 3), c.n(4, 5), c.n(2000, 20000)), c.n(1500, 20000))
