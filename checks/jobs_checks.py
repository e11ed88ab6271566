"""Checks of the properties about processes: J01, K01."""
import forks, jobs, shells, streams, vf


def J01():
    ch = vf.Check('J01')
    ch.model(vf.tlc('Jobs'), 'Jobs, 3 jobs, 7 actions')
    ch.cov['bounds'] = 'Jobs: exhaustive for 3 jobs, 2 variables and 7 actions; simulated and replayed for 4 jobs'
    jobs.check(ch, vf.scaled(40, 400), vf.scaled(8, 12))
    jobs.check_data(ch, vf.scaled(6, 80), vf.scaled(6, 80))
    ch.finish()


def K01():
    ch = vf.Check('K01')
    ch.model(vf.tlc('Fork', vf.scaled('Fork.cfg', 'ForkBig.cfg')), vf.scaled('Fork, 2 branches of 2 steps, exhaustive', 'Fork, 3 branches of 2 steps, exhaustive'))
    ch.cov['bounds'] = 'Fork: exhaustive for the bounds of Fork.cfg / ForkBig.cfg; simulated and replayed for 3 branches of 3 steps'
    forks.fixed(ch, vf.scaled(500, 4000))
    forks.replay(ch, vf.scaled(60, 1200))
    forks.recorded(ch, vf.scaled(24, 300), 10)
    forks.in_shell(ch, vf.scaled(300, 3000))
    ch.finish()
