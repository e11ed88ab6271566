"""H01, decided on spec/History.tla."""
import vf, histories


def H01():
    ch = vf.Check('H01')
    histories.check(ch)
    ch.finish()
