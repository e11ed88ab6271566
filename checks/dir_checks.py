"""The check of the property about directories: D01."""
import dirs, vf


def D01():
    ch = vf.Check('D01')
    ch.model(vf.tlc('Dirs', vf.scaled('Dirs.cfg', 'DirsBig.cfg')), vf.scaled('Dirs, 6 actions, exhaustive for 6 arguments', 'Dirs, 8 actions, exhaustive for 6 arguments'))
    ch.cov['bounds'] = 'Dirs: exhaustive for the bounds of Dirs.cfg / DirsBig.cfg; simulated and replayed for 24 actions, 38 arguments, stacks of 5'
    dirs.check(ch, vf.scaled(120, 1600), vf.scaled(16, 160))
    ch.finish()
