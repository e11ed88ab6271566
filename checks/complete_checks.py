"""T01, decided on spec/Complete.tla."""
import vf, completions


def T01():
    ch = vf.Check('T01')
    completions.check(ch)
    ch.finish()
