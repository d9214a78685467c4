"""All formats agree with the interpreter (Convert.tla)."""
import convdocs, conv_check


def run(c):
    conv_check.generated(c, convdocs.FORMATS, c.n(3, 5), c.n(2500, 25000))
    conv_check.random_runs(c, convdocs.FORMATS, c.n(250, 2500), 8)
    c.assumptions += ['image export is C22; text files are UTF-8, the others any codec containing ASCII']
