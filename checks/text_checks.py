"""P01: what text means (spec/Text.tla)."""
import itertools, os
import texts, vf

CHARS = ' \'"\\(|#'


def three_ways(s):
    out = ['"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"']
    if s: out.append(''.join('\\' + c for c in s))
    if "'" not in s: out.append("'" + s + "'")
    return out


def P01():
    ch = vf.Check('P01')
    n = vf.scaled(3, 5)
    cfg = os.path.join(ch.scratch, 'laws.cfg')
    with open(cfg, 'w') as f:
        f.write(f'SPECIFICATION Spec\nCONSTANTS\n N = {n}\n Words <- NoWords\n Exprs <- NoExprs\n'
                'INVARIANTS QuoteLaw JoinLaw BlankLaw CommentLaw PyLaw Total\nCHECK_DEADLOCK FALSE\n')
    ch.model(vf.tlc('TextLaws', cfg=cfg), f'TextLaws: every text of up to {n} of 13 characters')
    g = texts.TextGen(ch.rng)
    # sentences, and what mutations make of them
    sessions = [texts.SETUP + [g.text() for _ in range(12)] for _ in range(vf.scaled(420, 5000))]
    # every way of writing every short string
    quoted = [q for k in range(vf.scaled(3, 4)) for s in itertools.product(CHARS, repeat=k) for q in three_ways(''.join(s))]
    quoted += [g.quote(''.join(g.pick(CHARS) for _ in range(3))) for _ in range(vf.scaled(600, 4000))]
    if len(quoted) % 2: quoted.append('x')
    cmds = [f'fb {a} {b} | (*x: repr(x))' for a, b in zip(quoted[::2], quoted[1::2])]
    sessions += [texts.SETUP[2:4] + cmds[i:i + 40] for i in range(0, len(cmds), 40)]
    # every short sequence of tokens
    vocabulary = texts.SYMS + ['fa', 'pa', 'va', 'u', '(va)', '(*x: x[0])', "'a'", '', '#']
    short = [x for k in (1, 2) for x in itertools.product(vocabulary, repeat=k)]
    more = list(itertools.product(vocabulary, repeat=3))
    short += more if vf.scaled(0, 1) else ch.rng.sample(more, 900)
    short += [tuple(g.pick(vocabulary) for _ in range(4)) for _ in range(vf.scaled(600, 20000))]
    cmds = [t for x in short for t in {' '.join(x), ''.join(x)} if texts.safe(t)]
    ch.rng.shuffle(cmds)
    sessions += [texts.SETUP + cmds[i:i + 8] for i in range(0, len(cmds), 8)]
    texts.judge(ch, sessions)
    ch.finish()
