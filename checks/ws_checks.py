"""Checks of workspaces: N03, W01-W04."""
import damage, vf, workspaces


def sessions(ch, kind, n, length):
    rs = workspaces.record([(kind, length, f'{ch.prop}-{vf.SEED}-{kind}-{i}') for i in range(n)])
    workspaces.validate(ch, rs, kind)


def N03():
    ch = vf.Check('N03')
    sessions(ch, 'single', vf.scaled(200, 2000), 20)
    sessions(ch, 'plain', vf.scaled(200, 2000), 25)
    ch.finish()


def W01():
    ch = vf.Check('W01')
    ch.model(vf.tlc('WorkspacesMC'), 'Workspaces, 2 shells, 2 names, 6 operations')
    sessions(ch, 'plain', vf.scaled(100, 1000), 25)
    sessions(ch, 'race', vf.scaled(260, 4000), 25)
    rs = workspaces.record([('handover', h, f'handover-{vf.SEED}-{i}-{h}') for i in range(vf.scaled(2, 25)) for h in workspaces.HANDOVERS])
    workspaces.validate(ch, rs, 'handover')
    ch.finish()


def W02():
    ch = vf.Check('W02')
    ch.model(vf.tlc('WorkspacesMC'), 'Workspaces, 2 shells, 2 names, 6 operations')
    sessions(ch, 'crash', vf.scaled(400, 5000), 25)
    ch.finish()


def W03():
    ch = vf.Check('W03')
    sessions(ch, 'plain', vf.scaled(350, 4000), 30)
    ch.finish()


def W04():
    ch = vf.Check('W04')
    ch.model(vf.tlc('DamageMC'), 'Damage, 2 named workspaces, 3 kinds of damage, 7 actions')
    damage.validate(ch, damage.record([(26, f'{vf.SEED}-damage-{i}') for i in range(vf.scaled(300, 4000))]))
    ch.finish()
