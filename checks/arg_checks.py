"""P02: arguments of operators (spec/Args.tla)."""
import argvs, vf


def P02():
    ch = vf.Check('P02')
    declared, _ = argvs.plan(ch, [])
    g = argvs.ArgGen(ch.rng, declared)
    groups = []
    for op in argvs.CORE + argvs.SAME + argvs.REFUSALS:
        rich = len(declared[op]['flags']) > 0
        groups += [g.group(op) for _ in range(vf.scaled(14 if rich else 7, 300 if rich else 60))]
    ch.rng.shuffle(groups)
    argvs.judge(ch, groups)
    ch.finish()
