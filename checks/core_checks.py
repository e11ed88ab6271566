"""Checks of the properties decided on spec/Core.tla: S01-S07, N01, N02."""
import errno, os
import core, scopes, vf
from core import Gen, enc


def laws(ch, family):
    """The machines of Core against the definitions of the operators (spec/CoreLaws.tla)."""
    cfg = os.path.join(ch.scratch, 'laws.cfg')
    n = vf.scaled(2, 3)
    with open(cfg, 'w') as f:
        f.write(f'SPECIFICATION Spec\nCONSTANTS\n Family = "{family}"\n MaxLen = {n}\nINVARIANTS FirstLaw SecondLaw\nCHECK_DEADLOCK FALSE\n')
    t = vf.tlc('CoreLaws', cfg=cfg)
    ch.model(t, f'CoreLaws: all pairs of operators, one of {family}, inputs up to {n} rows')
    ch.cov['bounds'] = f'CoreLaws: inputs of up to {n} rows over 4 rows'


def run(pipe): return {'c': 'run', 'pipe': pipe}
def lit(*pipe, params=()): return ['lit', list(params), list(pipe)]
def rows(*vs): return {'op': 'rows', 'rows': [enc(v) for v in vs]}
def gen(n, start=0): return {'op': 'gen', 'n': n, 'start': start}
A0 = ['a', 0]


def S01():
    ch = vf.Check('S01')
    laws(ch, 'S01')
    sessions = []
    for _ in range(vf.scaled(100, 1500)):
        g = Gen(ch.rng, vars=(), errors=0.03)
        cmds = [run(g.pipe(maxops=4, kinds=g.BASIC)) for _ in range(20)]
        # every operator on empty, one-row and longer input
        op = g.simple(g.BASIC)
        for n in (0, 1, 5):
            cmds.append(run([rows(*[g.value(g.pick(['int', 'pair', 'list'])) for _ in range(n)]), op]))
        # repeated and ordered keys: stability, duplicates
        rs = [(g.rng.randrange(3), k) for k in range(g.rng.randrange(9))]
        cmds.append(run([rows(*rs), {'op': 'sort', 'e': g.pick([A0, ['%', A0, ['c', enc(2)]], ['not', A0]][:2])}]))
        cmds.append(run([rows(*[g.rng.randrange(3) for _ in range(g.rng.randrange(12))]), {'op': 'unique', 'c': g.chance(.5)}]))
        sessions.append(cmds)
    # longer streams, where buffers matter
    for _ in range(vf.scaled(6, 60)):
        g = Gen(ch.rng, vars=(), errors=0)
        cmds = []
        for _ in range(6):
            n = g.pick([50, 100, 130])
            ops = [g.simple(['head', 'tail', 'sort', 'reverse', 'unique', 'select', 'imap']) for _ in range(2)]
            for o in ops:
                if o['op'] in ('head', 'tail'): o['n'] *= g.pick([1, 10, 25])
                if o['op'] == 'sort': o['e'] = g.pick([['none'], ['%', A0, ['c', enc(7)]], ['*', A0, ['c', enc(-1)]]])
            cmds.append(run([gen(n)] + [{'op': 'map', 'e': ['%', ['*', A0, ['c', enc(37)]], ['c', enc(41)]]}] + ops))
        sessions.append(cmds)
    core.run_core(ch, sessions)
    ch.finish()


def S02():
    ch = vf.Check('S02')
    laws(ch, 'S02')
    sessions = []
    for _ in range(vf.scaled(120, 1500)):
        g = Gen(ch.rng, vars=(), errors=0.02)
        cmds = []
        for _ in range(20):
            shape = g.pick(['int', 'int', 'pair', 'kv', 'kv', 'triple', 'str', 'none', 'mixed'])
            pipe = [g.source(shape)]
            if g.chance(.2): pipe.append(g.simple(['select', 'reverse', 'imap']))
            pipe.append(g.bag(shape))
            if g.chance(.3): pipe.append(g.bag(shape))
            if g.chance(.3): pipe.append(g.simple(['sort', 'reverse', 'head', 'unique', 'squish']))
            cmds.append(run(pipe))
        # pipelines as variables, also the same one twice
        cmds.append({'c': 'assignp', 'name': 'p', 'params': [], 'pipe': [g.source('int')]})
        cmds.append({'c': 'assignp', 'name': 'q', 'params': [], 'pipe': [g.source('int')] + [g.simple(['imap', 'head', 'reverse'])]})
        for _ in range(6):
            op = g.bag('int')
            v = lambda: ['var', g.pick(['p', 'p', 'q'])]
            if 'args' in op: op['args'] = [v() for _ in op['args']]
            else: op['arg'] = v()
            cmds.append(run([g.pick([g.source('int'), {'op': 'call', 'name': 'p', 'args': [], 'kwnames': [], 'kwvals': []}]), op]))
        sessions.append(cmds)
    core.run_core(ch, sessions)
    ch.finish()


def S03():
    ch = vf.Check('S03')
    laws(ch, 'S03')
    sessions = []
    for _ in range(vf.scaled(120, 1500)):
        g = Gen(ch.rng, vars=(), errors=0.02)
        cmds = []
        for _ in range(24):
            shape = g.pick(['int', 'pair', 'pair', 'kv', 'triple', 'triple', 'str', 'mixed', 'list', 'none', 'nested', 'gkey', 'gkey'])
            pipe = [g.source(shape, maxn=9)]
            if g.chance(.2): pipe.append(g.simple(['select', 'reverse', 'pmap']))
            pipe.append(g.red())
            if g.chance(.4): pipe.append(g.simple(['reverse', 'sort', 'squish', 'tail', 'red', 'expand', 'select']))
            cmds.append(run(pipe))
        sessions.append(cmds)
    core.run_core(ch, sessions)
    ch.finish()


def S04():
    ch = vf.Check('S04')
    laws(ch, 'S04')
    sessions = []
    for _ in range(vf.scaled(120, 1500)):
        g = Gen(ch.rng, vars=(), errors=0.05)
        cmds = []
        for _ in range(24):
            w = g.window()
            if w['kind'] != 'p' and g.chance(.1): w['n'] = g.pick([7, 8])
            pipe = [g.source(g.pick([None, 'int', 'pair', 'list', 'mixed', 'none', 'str']), maxn=8)]
            if g.chance(.2): pipe.append(g.simple(['select', 'reverse', 'head']))
            pipe.append(w)
            r = g.rng.random()
            if r < .3: pipe.append({'op': 'red', 'inc': False, 'fs': ['count']})
            elif r < .5: pipe.append(g.simple(['reverse', 'window', 'expand', 'tail', 'squish']))
            cmds.append(run(pipe))
        # windows of windows in a pipeline executed repeatedly
        cmds.append(run([gen(g.rng.randrange(1, 5)), {'op': 'args', 'all': False, 'arg': lit(
            {'op': 'genv', 'e': ['+', ['*', ['v', 'u'], ['v', 'u']], ['c', enc(1)]], 'start': 0}, g.window(), params=['u'])},
            {'op': 'red', 'inc': False, 'fs': ['count']}]))
        sessions.append(cmds)
    core.run_core(ch, sessions)
    ch.finish()


ALL = ['map', 'imap', 'pmap', 'select', 'head', 'tail', 'sort', 'reverse', 'unique', 'expand', 'squish', 'window', 'red']


def callop(name, *args): return {'op': 'call', 'name': name, 'args': list(args), 'kwnames': [], 'kwvals': []}


def S05():
    ch = vf.Check('S05')
    sessions = []
    for _ in range(vf.scaled(150, 2000)):
        g = Gen(ch.rng, vars=(), errors=ch.rng.choice([0, 0, .15]))
        cmds = []
        # a pipeline variable that is a source, and one that transforms
        src = g.pipe(maxops=3, kinds=ALL, nest=.3)
        g.params = ['u']
        srcu = [g.pick([g.source('int', 4), {'op': 'genv', 'e': ['+', ['*', ['v', 'u'], ['v', 'u']], ['c', enc(1)]], 'start': 0}])] + [
            (g.nested(kinds=ALL) if g.chance(.4) else g.simple(ALL)) for _ in range(g.rng.randrange(1, 3))]
        g.params = []
        tr = [g.nested(kinds=ALL) if g.chance(.4) else g.simple(ALL) for _ in range(g.rng.randrange(1, 3))]
        cmds.append({'c': 'assignp', 'name': 'p', 'params': [], 'pipe': src})
        cmds.append({'c': 'assignp', 'name': 'pu', 'params': ['u'], 'pipe': srcu})
        cmds.append({'c': 'assignp', 'name': 't', 'params': [], 'pipe': tr})
        inputs = [g.source(s, 4) for s in ('int', 'pair', 'int')]
        c1 = ['c', enc(1)]
        uses = [
            [callop('p')], [callop('p')],
            [callop('pu', ['c', enc(2)])], [callop('pu', ['c', enc(0)])],
            [inputs[0], callop('t')], [inputs[0], callop('t')], [inputs[1], callop('t')],
            [inputs[2], callop('t'), callop('t')],
            [callop('p'), callop('t')],
            [gen(3), {'op': 'args', 'all': False, 'arg': lit(*src, params=['y'])}],
            [gen(3), {'op': 'args', 'all': False, 'arg': lit(*srcu, params=['u'])}],
            [gen(3), {'op': 'args', 'all': False, 'arg': lit(callop('p'), params=['y'])}],
            [gen(3), {'op': 'args', 'all': False, 'arg': lit(callop('pu', ['v', 'y']), params=['y'])}],
            [gen(2), {'op': 'args', 'all': False, 'arg': lit(gen(2), callop('t'), params=['y'])}],
            [gen(2), {'op': 'args', 'all': False, 'arg': ['var', 'pu']}],
            [gen(2), {'op': 'args', 'all': False, 'arg': ['var', 'pu']}, {'op': 'args', 'all': False, 'arg': lit(callop('p'), params=['y'])}],
            [gen(2), {'op': 'union', 'args': [['var', 'p'], ['var', 'p']]}],
            [gen(2), {'op': 'union', 'args': [lit(callop('p')), lit(callop('p'))]}],
            [inputs[0], {'op': 'case', 'branches': [[['<', c1, A0], lit(callop('t'))], [c1, lit(callop('t'))]], 'default': True}],
            [gen(2), {'op': 'args', 'all': False, 'arg': lit(gen(2), {'op': 'case', 'branches': [[['<', c1, ['+', A0, c1]], lit(*tr)], [c1, lit(*tr)]],
                                                                  'default': True}, params=['y'])}],
            [inputs[0], {'op': 'intersect', 'args': [['var', 'p'], ['var', 'p']]}],
            [inputs[0], {'op': 'difference', 'arg': ['var', 'p']}],
            [inputs[0], {'op': 'filter', 'keep': True, 'e': ['none'], 'arg': ['var', 'p']}],
            [gen(2), {'op': 'args', 'all': False, 'arg': lit(inputs[0], g.bag('int'), params=['y'])}],
            [gen(3), {'op': 'args', 'all': False, 'arg': lit(inputs[2], g.bag('int'), g.simple(ALL), params=['y'])}],
            [gen(2), {'op': 'args', 'all': False, 'arg': lit(gen(2), {'op': 'args', 'all': False, 'arg': lit(callop('p'), params=['z'])}, params=['y'])}],
            [gen(3), {'op': 'args', 'all': False, 'arg': lit({'op': 'map', 'e': ['t', [['pos'], ['v', 'y']]]}, params=['y'])}],
            [gen(2), {'op': 'args', 'all': False, 'arg': lit(gen(3), {'op': 'map', 'e': ['t', [['pos'], ['v', 'y']]]}, params=['y'])}],
        ]
        for _ in range(14): cmds.append(run(g.pick(uses)))
        # after a failed execution
        bad = g.pick([[gen(2), {'op': 'head', 'n': 0}], [callop('nosuch')], [inputs[0], callop('t'), gen(2)],
                      [callop('pu', ['//', ['c', enc(1)], ['c', enc(0)]])],
                      [rows([1], [2]), {'op': 'unique', 'c': False}],
                      [inputs[0], {'op': 'map', 'e': ['//', ['c', enc(1)], ['c', enc(0)]]}, callop('t')],
                      [gen(2), {'op': 'args', 'all': False, 'arg': lit(callop('p'), {'op': 'map', 'e': ['l', [A0]]}, {'op': 'map', 'e': ['t', [['row']]]},
                                                                         {'op': 'map', 'e': ['l', [['l', [A0]]]]}, {'op': 'unique', 'c': False}, params=['y'])}]])
        cmds.append(run(bad))
        for _ in range(4): cmds.append(run(g.pick(uses)))
        sessions.append(cmds)
    core.run_core(ch, sessions)
    ch.finish()


def S06():
    ch = vf.Check('S06')
    sessions = []
    for _ in range(vf.scaled(150, 2000)):
        g = Gen(ch.rng, vars=(), errors=0.6)
        cmds = []
        fails = [{'op': 'map', 'e': ['t', [A0, ['//', ['c', enc(6)], ['%', A0, ['c', enc(3)]]]]]},
                 {'op': 'map', 'e': ['//', ['c', enc(6)], A0]},
                 {'op': 'select', 'e': ['//', ['c', enc(6)], ['%', A0, ['c', enc(2)]]]},
                 {'op': 'map', 'e': ['a', 1]}, {'op': 'select', 'e': ['a', 1]}]
        for _ in range(14):
            pipe = [g.pick([gen(g.rng.randrange(1, 7)), g.source('mixed'), g.source('triple'), g.source('int')])]
            if g.chance(.8): pipe.append(g.pick(fails))
            for _ in range(g.rng.randrange(1, 4)):
                pipe.append(g.nested(kinds=ALL) if g.chance(.25) else g.simple(ALL))
            cmds.append(run(pipe))
        # every operator after, and with, a failing function
        for k in g.rng.sample(ALL, 6):
            op = g.simple([k])
            cmds.append(run([gen(5), g.pick(fails), op]))
            cmds.append(run([gen(5), g.pick(fails), op, {'op': 'red', 'inc': False, 'fs': ['count']}]))
        cmds.append(run([gen(4), g.pick(fails), {'op': 'union', 'args': [lit(gen(3), g.pick(fails))]}, g.simple(['map', 'reverse', 'select'])]))
        cmds.append(run([gen(3), {'op': 'args', 'all': False, 'arg': lit({'op': 'map', 'e': ['//', ['c', enc(4)], ['v', 'u']]}, params=['u'])}, g.simple(ALL)]))
        cmds.append(run([gen(4), {'op': 'case', 'branches': [[['//', ['c', enc(4)], A0], lit(g.pick(fails))], [['c', enc(1)], lit(g.pick(fails), g.simple(ALL))]],
                                  'default': True}, g.simple(ALL)]))
        cmds.append(run([{'op': 'map', 'e': ['//', ['c', enc(1)], ['c', enc(0)]]}, g.simple(['map', 'select', 'red', 'reverse'])]))
        cmds.append(run([gen(4), {'op': 'filter', 'keep': g.chance(.5), 'e': ['//', ['c', enc(4)], A0], 'arg': lit(gen(5), g.pick(fails))}]))
        cmds.append(run([gen(4), g.pick(fails), {'op': 'window', 'kind': 'p', 'n': 0, 'e': ['//', ['c', enc(2)], A0]}]))
        cmds.append(run([rows((1, 1), (1, 'a'), (2, 'b'), (1, 2), (2, 3)), {'op': 'red', 'inc': g.chance(.5), 'fs': g.pick([['.', '+'], ['+', '+'], ['max', 'max']])}]))
        # aborted commands in between: the rest is not affected
        aborted = [run([gen(2), {'op': 'head', 'n': 0}]), {'c': 'bad', 'text': 'gen 3 | nosuchop'}, {'c': 'bad', 'text': 'gen 3 | map (x: x'},
                   {'c': 'bad', 'text': 'gen 3 | head'}, run([rows([1], [2]), {'op': 'map', 'e': ['t', [['l', [A0]]]]}, {'op': 'unique', 'c': False}]),
                   run([gen(3), gen(3)]), {'c': 'bad', 'text': 'sort'}, run([callop('undefined_pipe')]), {'c': 'bad', 'text': 'gen 2 | join nosuch'},
                   {'c': 'bad', 'text': 'gen 3 | map (x: ) '}, {'c': 'bad', 'text': 'gen abc'}, {'c': 'bad', 'text': 'load nosuch'}]
        for _ in range(6): cmds.insert(g.rng.randrange(len(cmds)), g.pick(aborted))
        sessions.append(cmds)
    core.run_core(ch, sessions)
    ch.finish()


def S07():
    ch = vf.Check('S07')
    sessions = []
    for _ in range(vf.scaled(150, 2000)):
        g = Gen(ch.rng, vars=('va', 'vb'), errors=0.03)
        cmds = [{'c': 'assign', 'name': v, 'e': ['c', enc(g.scalar('i'))]} for v in g.vars]
        defs = {'f0': [], 'f1': ['u'], 'f2': ['u', 'w'], 'f3': ['w', 'y', 'u']}
        srcs = {}
        for name, params in defs.items():
            saved, g.params = g.params, params
            src = srcs[name] = g.chance(.6)
            if src: pipe = [{'op': 'map', 'e': ['t', [['v', p] for p in params] + [['c', enc(0)]]]}] + [g.simple(['map', 'pmap'])] * g.rng.randrange(2)
            else:
                pipe = [{'op': 'map', 'e': ['t', [A0, ['len']] + [['v', p] for p in params]]}]
                if g.chance(.5):   # a parameter used when the input has ended
                    pipe.insert(0, g.simple(['red', 'sort', 'reverse', 'tail', 'window']))
            g.params = saved
            cmds.append({'c': 'assignp', 'name': name, 'params': params, 'pipe': pipe})
            g.pipes[name] = params
        for _ in range(16):
            pipe = [g.pick([gen(g.rng.randrange(1, 6)), g.source('int'), g.source('pair'), g.source('mixed')])]
            for _ in range(g.rng.randrange(1, 3)): pipe.append(g.nested(kinds=g.BASIC))
            if g.chance(.3): pipe.append(g.simple(g.BASIC))
            cmds.append(run(pipe))
        for _ in range(6):
            c = g.call()
            if g.chance(.15) : c['args'] = c['args'] + [['c', enc(9)]]          # perhaps too many
            if g.chance(.1): c['kwnames'], c['kwvals'] = c['kwnames'] + ['qq'], c['kwvals'] + [['c', enc(9)]]
            cmds.append(run([gen(2), c]))
        # pipelines as arguments of pipelines
        def parg(source):
            if source: return ['pv', [], [gen(g.rng.randrange(1, 5), g.rng.randrange(3))] + [g.simple(['map', 'pmap', 'head', 'tail', 'red', 'reverse'])] * g.rng.randrange(2)]
            if g.chance(.25): return ['pg', 'f0'] if not srcs['f0'] else ['pg', 'q0']
            return ['pv', [], [g.simple(['map', 'pmap', 'select', 'head', 'tail', 'red', 'reverse', 'unique']) for _ in range(g.rng.randrange(1, 3))]]
        g.params = []
        cmds += [{'c': 'assignp', 'name': 'q0', 'params': [], 'pipe': [{'op': 'map', 'e': ['t', [A0, A0]]}, {'op': 'head', 'n': 2}]},
                 {'c': 'assignp', 'name': 'h1', 'params': ['y', 'pp'], 'pipe': [{'op': 'map', 'e': ['t', [A0, ['v', 'y']]]}, callop('pp')]},
                 {'c': 'assignp', 'name': 'h2', 'params': ['z'], 'pipe': [callop('z'), {'op': 'map', 'e': ['t', [['len'], A0]]}]},
                 {'c': 'assignp', 'name': 'h3', 'params': ['y', 'z'], 'pipe': [callop('h1', ['v', 'y'], ['pw', 'z'])]},
                 {'c': 'assignp', 'name': 'h4', 'params': ['y', 'z'], 'pipe': [{'op': 'args', 'all': False, 'arg': lit(gen(2, 5), callop('z'), params=['u'])}]}]
        for _ in range(6):
            k, c = g.rng.randrange(6), ['c', enc(g.rng.randrange(3))]
            h = g.pick(['h1', 'h3', 'h4'])
            if k < 2: cmds.append(run([gen(g.rng.randrange(1, 5)), callop(h, c, parg(False)), g.simple(['map', 'red', 'reverse', 'head'])]))
            elif k == 2: cmds.append(run([callop('h2', parg(True))] + [g.simple(['map', 'red', 'reverse'])] * g.rng.randrange(2)))
            elif k == 3: cmds.append(run([gen(3), dict(callop(h, c), kwnames=['pp' if h == 'h1' else 'z'], kwvals=[parg(False)])]))
            elif k == 4: cmds.append(run([gen(3), {'op': 'union', 'args': [lit(callop('h2', parg(True)))]}]))
            else: cmds.append(run([gen(3), callop(h, c)]))      # the parameter is None, which cannot be run
        # nesting with shadowing and access to enclosing parameters
        inner = lit({'op': 'map', 'e': ['t', [['v', 'u'], ['v', 'w'], ['v', 'va']]]}, params=['w'])
        inner2 = lit({'op': 'map', 'e': ['t', [['v', 'u'], ['v', 'va']]]}, params=['u'])
        for i in (inner, inner2):
            cmds.append(run([gen(3), {'op': 'args', 'all': False, 'arg': lit(gen(2, 10), {'op': 'args', 'all': False, 'arg': i},
                                                                             {'op': 'map', 'e': ['t', [['row'], ['v', 'u']]]}, params=['u'])}]))
        n = g.rng.randrange(1, 9)
        cmds.append(run([gen(n), {'op': 'args', 'all': False, 'arg': lit({'op': 'map', 'e': ['t', [['v', 'u'], ['v', 'w'], ['v', 'y']]]}, params=['u', 'w', 'y'])}]))
        cmds.append(run([gen(n), {'op': 'args', 'all': True, 'arg': lit({'op': 'map', 'e': ['v', 'u']}, params=['u'])}]))
        sessions.append(cmds)
    # the known finding: see core.leaks
    probe = [{'c': 'assign', 'name': 'pr', 'e': ['c', enc(5)]},
             {'c': 'assignp', 'name': 'leaky', 'params': ['pr'], 'pipe': [{'op': 'map', 'e': ['v', 'pr']}]},
             run([gen(3), callop('leaky', ['c', enc(7)]), {'op': 'map', 'e': ['t', [A0, ['v', 'pr']]]}])]
    core.run_core(ch, sessions, probes=[probe])
    ch.finish()


def N01():
    ch = vf.Check('N01')
    sessions = []
    V = ['a', 'b', 'c', 'd']
    for _ in range(vf.scaled(150, 2000)):
        g = Gen(ch.rng, vars=V, errors=0.1)
        g.PARAM_NAMES = V
        cmds = [{'c': 'assign', 'name': v, 'e': ['c', enc(g.value(g.pick(['int', 'str', 'pair', 'list'])))]} for v in V if g.chance(.75)]
        probe = [run([{'op': 'map', 'e': ['v', v]}]) for v in V]
        for name in ('f1', 'f2'):
            params = g.rng.sample(V, g.rng.randrange(1, 3))
            pipe = [{'op': 'map', 'e': ['t', [['v', p] for p in params]]}]
            if g.chance(.5): pipe.append({'op': 'args', 'all': False, 'arg': lit({'op': 'map', 'e': ['v', params[0]]}, params=[g.pick(V)])})
            cmds.append({'c': 'assignp', 'name': name, 'params': params, 'pipe': pipe})
            g.pipes[name] = params
        for _ in range(8):
            r = g.rng.random()
            if r < .25: cmds.append(run([g.call()]))
            elif r < .35: cmds.append(run([gen(2), g.call()]))
            elif r < .8:
                p = g.pick(V)
                body = [{'op': 'map', 'e': g.pick([['t', [['v', x] for x in V]], ['v', p], ['//', ['c', enc(2)], ['v', p]]])}]
                if g.chance(.4): body = [gen(2), {'op': 'args', 'all': False, 'arg': lit(*body, params=[g.pick(V)])}]
                if g.chance(.3): body.append(g.call())
                if g.chance(.1): body.append({'op': 'map', 'e': ['t', [['l', [A0]]]]}); body.append({'op': 'unique', 'c': False})   # aborts
                if g.chance(.1): body.append({'op': 'head', 'n': 0})
                cmds.append(run([gen(g.rng.randrange(1, 4)), {'op': 'args', 'all': False, 'arg': lit(*body, params=[p])}]))
            else:
                cmds.append({'c': 'assign', 'name': g.pick(V), 'e': ['c', enc(g.scalar('i'))]})
            cmds.append(g.pick(probe))
            cmds.append(run([{'op': 'map', 'e': ['t', [['v', v] for v in V]]}]))
        cmds += probe
        cmds.append({'c': 'defined', 'names': V, 'codes': [enc(v) for v in V]})
        sessions.append(cmds)
    core.run_core(ch, sessions)
    # variables supplied by marcel, hidden by a parameter of the same name
    perm = ['HOME', 'USER', 'DIRS', 'PROMPT', 'MARCEL_VERSION', 'Color', 'o', 'pos', 'parse_args', 'BOLD']
    hide = [{'id': n, 'steps': [{'cmd': f'({v}) | map (*x: repr(x)[:4])'}, {'cmd': f'p = (| {v}: ({v}) | map (*x: repr(x)) |)'}, {'cmd': 'p (3)'},
                                {'cmd': f'gen 2 | args (| {v}: ({v}) | map (*x: repr(x)) |)'}, {'cmd': f'({v}) | map (*x: repr(x)[:4])'}]}
            for n, v in enumerate(perm)]
    for v, r in zip(perm, vf.run_sessions(hide)):
        o = r['results']
        ch.count('permanent_variables')
        if len(o) < 5 or o[0] != o[4] or o[2]['out'] != '(3,)\n' or o[3]['out'] != '(0,)\n(1,)\n':
            ch.violation(f'parameter named {v}: before {o[:1]}, after {o[4:]}', {'variable': v, 'observed': o})
    scopes.check(ch)
    ch.finish()


def N02():
    ch = vf.Check('N02')
    sessions = []
    V = ['a', 'b', 'c']
    F = ['f0', 'f1', 'f2']
    init = [('SV', 7), ('SL', [1, 2]), ('ST', 'abc')]
    startup = 'from marcel.builtin import *\n' + ''.join(f'{n} = {v!r}\n' for n, v in init) + 'def SF(x): return x + 1\n'
    supplied = ['BOLD', 'COLOR_SCHEME', 'Color', 'DIRS', 'HOME', 'HOST', 'ITALIC', 'MARCEL_VERSION', 'pos', 'PROMPT', 'PWD', 'USER', 'WORKSPACE']
    for _ in range(vf.scaled(150, 2000)):
        g = Gen(ch.rng, vars=V + ['SV'], errors=0.15, profile='nopos')
        protected = g.rng.sample(supplied, 2) + [g.pick(['SV', 'SL', 'ST'])]
        show = [{'c': 'same', 'text': f"map (*x: repr({v}))"} for v in protected] + [{'c': 'same', 'text': 'map (*x: (minutes(2), days(1), SF(1)))'}]
        pool = sorted(V + ['r', 's', 'p', 'q'] + F)
        cmds = list(show)
        def fn(i, g=g):
            e = g.expr(1)
            if i and g.chance(.5): e = ['t', [['f', F[g.rng.randrange(i)], A0], e]]
            return {'c': 'assignf', 'name': F[i], 'e': e}
        for _ in range(34):
            r = g.rng.random()
            name = g.pick(pool) if g.chance(.25) else g.pick(V)
            # functions are not named as what they may refer to, nor the reverse
            if r < .22:
                e = g.pick([['c', enc(g.value(g.pick(['int', 'str', 'pair', 'list', 'none', 'nested'])))], g.expr(1, row=False)])
                cmds.append({'c': 'assign', 'name': name, 'e': e})
            elif r < .26:
                k = g.rng.randrange(1, 9)
                cmds.append({'c': 'assign', 'name': name, 'e': ['c', enc(k)], 'text': f'import {g.pick(["-a", "--as"])} {name} errno {errno.errorcode[k]}'})
            elif r < .3: cmds.append(fn(g.rng.randrange(3)))
            elif r < .38:
                cmds.append({'c': 'assignp', 'name': g.pick(['p', 'q', 'p', 'q', 'r', 's']), 'params': [], 'pipe': [g.source('int'), g.simple(['map', 'select', 'head', 'reverse'])]})
            elif r < .52:
                cmds.append({'c': 'store', 'name': g.pick(['r', 's', 'r', 's', 'r', 'a', 'p']), 'append': g.chance(.4), 'style': g.rng.randrange(2),
                             'pipe': [g.source(g.pick([None, 'int', 'pair']))] + [g.simple(['map', 'select', 'head', 'reverse', 'unique'])] * g.rng.randrange(2)})
            elif r < .6: cmds.append({'c': 'del', 'name': g.pick(pool)})
            elif r < .72:
                n = g.pick(protected)
                cmds.append(g.pick([{'c': 'assign', 'name': n, 'e': ['c', enc(3)]}, {'c': 'del', 'name': n}, {'c': 'assignf', 'name': n, 'e': A0},
                                    {'c': 'assignp', 'name': n, 'params': [], 'pipe': [gen(3)]},
                                    {'c': 'store', 'name': n, 'append': g.chance(.5), 'style': g.rng.randrange(2), 'pipe': [gen(3)]},
                                    {'c': 'bad', 'text': f'{n} = abc'},
                                    {'c': 'assign', 'name': n, 'e': ['c', enc(2)], 'text': f'import -a {n} errno ENOENT'},
                                    {'c': 'bad', 'text': f'import -a {n} math'}]))
            elif r < .78:
                cmds.append({'c': 'bad', 'text': g.pick(['a = ', 'a = (1', 'b = (nosuch)', 'gen 3 >$ ', 'gen 3 | head >$ a', 'c = (| gen 3 ', 'gen 3 | nosuchop >$ a',
                                                         'env nosuch', 'gen 3 | head 0 >$ a', 'gen 3 | head 0 >>$ r'])})
            elif r < .82: cmds.append(g.pick(show))
            elif r < .9: cmds.append(run([{'op': 'load', 'name': g.pick(['r', 's', 'a', 'p'])}]))
            else: cmds.append(run([callop(g.pick(['p', 'q']))]))
            r = g.rng.random()
            if r < .3: cmds.append(run([{'op': 'map', 'e': ['v', g.pick(V)]}]))
            elif r < .45: cmds.append(run([gen(2), {'op': 'map', 'e': ['f', g.pick(F), A0]}]))
            elif r < .6: cmds.append({'c': 'defined', 'names': pool, 'codes': [enc(v) for v in pool]})
        cmds += show + [{'c': 'defined', 'names': pool, 'codes': [enc(v) for v in pool]}]
        sessions.append(cmds)
    core.run_core(ch, sessions, startup=startup, init=init)
    core.run_core(ch, sessions[:vf.scaled(16, 100)], startup=startup, init=init, real=True)
    # without a startup script which imports them
    r = vf.run_sessions([{'id': 0, 'steps': [{'cmd': 'map (*x: (minutes(2), days(1), hours(3), quote_files("a b")))'}]}])[0]
    if r['results'][0]['out'] != "(120, 86400, 10800, \"'a b'\")\n":
        ch.violation(f'builtin functions: {r["results"]}', r)
    ch.finish()
