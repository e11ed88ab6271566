"""The check of the property about external programs: B01."""
import programs, vf


def B01():
    ch = vf.Check('B01')
    ch.model(vf.tlc('Bash', vf.scaled('Bash.cfg', 'BashBig.cfg')), vf.scaled('Bash: all programs of 3 steps, 3 units of input, pipes of 1 unit, all schedules, failures of neighbours',
                                                                           'Bash: all programs of 4 steps, 4 units of input'))
    naive = vf.tlc('Bash', 'BashNaive.cfg')
    if 'Deadlock' not in naive.out: ch.violation('Bash.tla: a shell which writes before it reads is not found to deadlock', {'tlc': naive.out[-2000:]})
    ch.cov['bounds'] = 'Bash.tla: see models. Real programs: up to 5 steps, 8 units of up to 200 KB or 9000 lines; texts and arguments of up to 6 odd characters or words'
    programs.check(ch, vf.scaled(48, 700), vf.scaled(8, 100))
    ch.finish()
