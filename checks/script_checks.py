"""C01, decided on spec/Script.tla."""
import vf, scripts


def C01():
    ch = vf.Check('C01')
    scripts.check(ch)
    ch.finish()
