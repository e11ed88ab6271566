"""Checks of the properties about stored data: R01."""
import os
import core, files, streams, vf
from core import Gen


def R01():
    ch = vf.Check('R01')
    ch.model(vf.tlc('Streams'), 'Streams, all commands of the small set, 3 commands over 2 variables')
    ch.cov['bounds'] = 'Streams: exhaustive for 3 commands over 2 variables with streams up to 3 rows; simulated for 10 commands over 3 variables'
    streams.check(ch, vf.scaled(70, 3000))
    # rows of all kinds
    sessions = []
    for _ in range(vf.scaled(40, 600)):
        g = Gen(ch.rng, vars=(), errors=0.02)
        cmds = []
        for _ in range(8):
            v = g.pick(['r', 's'])
            shape = g.pick(['int', 'pair', 'kv', 'triple', 'str', 'none', 'mixed', 'list', 'nested'])
            pipe = [g.source(shape)] + [g.simple(g.BASIC) for _ in range(g.rng.randrange(2))]
            cmds.append({'c': 'store', 'name': v, 'append': g.chance(.4), 'pipe': pipe})
            cmds.append({'c': 'run', 'pipe': [{'op': 'load', 'name': v}]})
            cmds.append({'c': 'run', 'pipe': [{'op': 'load', 'name': v}] + [g.simple(g.BASIC)]})
        sessions.append(cmds)
    core.run_core(ch, sessions)
    ch.finish()


def F01():
    ch = vf.Check('F01')
    cfg = os.path.join(ch.scratch, 'laws.cfg')
    with open(cfg, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS MaxRows = 2 MaxCols = 2 MaxStr = 1 Alphabet = {97, 34, 44, 10, 13%s}\n'
                'INVARIANTS RoundTrip Parts Replaces OnePerRecord\nCHECK_DEADLOCK FALSE\n' % vf.scaled('', ', 9, 39'))
    ch.model(vf.tlc('FilesLaws', cfg), 'FilesLaws: every format, all sequences of rows up to the bounds')
    ch.cov['bounds'] = 'FilesLaws: up to 2 rows of up to 2 values: None, two numbers, strings of up to one character of those with a role in some format'
    files.check(ch, vf.scaled(90, 1500))
    ch.finish()
