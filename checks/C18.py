"""Text of the codes of simple fonts (ToUnicode.tla, Encodings.tla, SimpleFont.tla)."""
import fonts, font_check


def run(c):
    font_check.simple(c, 'text', c.n(2, 3), c.n(1500, 20000), c.n(1500, 20000))
