"""Completions offered by the real completer in generated directories, for spec/Complete.tla."""
import json, os, shutil, subprocess, tempfile, threading
import vf, shells

codes = lambda s: [ord(c) for c in s]
BARE = 'abcdeAB0_.%+^]}é'
ALWAYS = ' \'"$!&();<>|\\*?[@`{'          # escaped outside quotes
MARCEL = '#,=:'                            # these too, except among the arguments of programs and the like
OPS = ['ls', 'read', 'prog', 'gen', 'write', 'cd', 'head', 'upload']
SHELL = {'ls', 'read', 'prog'}
ALL_OPS = ('args assign bash bg case cast cd difference dirs download edit env exit expand fg filter fork gen head help history import intersect jobs '
           'join load ls map popd ps pushd pwd read red remote reverse run select sort sql squish store sudo tail timer trace union unique upload '
           'version window write ws').split()
FLAGGED = {'args': '-a --all', 'bg': '-j --job -p --process', 'dirs': '-c --clear', 'env': '-d --delete -p --pattern -b --builtins -o --os',
           'filter': '-k --keep -d --discard -c --compare', 'gen': '-p --pad', 'head': '', 'history': '-c --command -a --all', 'import': '-a --as',
           'join': '-k --keep', 'ls': '-0 -1 -r --recursive -f --file -d --dir -s --symlink', 'map': '', 'ps': '-u --user -g --group -p --pid -c --command',
           'read': '-0 -1 -r --recursive -c --csv -t --tsv -h --headings -s --skip-headings -p --pickle -j --json -l --label',
           'red': '-i --incremental', 'reverse': '', 'store': '-a --append', 'trace': '-0 --off -1 --on -f --file', 'unique': '-c --consecutive',
           'window': '-o --overlap -d --disjoint', 'write': '-c --csv -t --tsv -p --pickle -f --format -a --append',
           'ws': '-l --list -n --new -o --open -c --close -d --delete -b --delete-broken -h --home -r --rename -2 --copy -e --export -i --import'}
TOPICS = ['color', 'command', 'configuration', 'function', 'marcel', 'namespace', 'object', 'operator', 'overview', 'pipeline', 'prompt']
COMMANDS = ['ls -fr "a b" | map (f: (f.path, f.size)) | sort (p, s: s) >$ v', 'x = (lambda a: a + 1)', 'gen 3 | args (| n: gen (n) | map (x: -x) |) | red +',
            "prog 'it''s' \\$HOME > out", 'p = (| n: gen (n) |)', 'v1 <$ | fork (3) (| gen 2 |)', 'join (| gen 3 |) -k', 'ws -n A; @host (| ls |)', '!! 3', '# x',
            'gen 3 >> f', 'case (x: x == 1) (| head 1 |) (| tail 1 |)', "map (x: '(' + \"|\")", 'sql "select * from t" ~root/x']


class Gen:
    def __init__(self, rng): self.rng = rng

    def name(self):
        r = self.rng
        s = ''.join(r.choice('aab') if r.random() < .55 else r.choice(BARE + ALWAYS + MARCEL + '~-') for _ in range(r.randrange(1, 6)))
        return s if s[0] not in '-~' and s not in ('.', '..') else 'a' + s

    def tree(self):
        r = self.rng
        entries = {}
        dirs = [('cwd',), ('home',)]
        for d in ('cwd', 'home'): entries[(d,)] = True
        for _ in range(r.randrange(10, 26)):
            p = r.choice(dirs) + (self.name(),)
            if p in entries: continue
            entries[p] = r.random() < .3
            if entries[p] and len(p) < 4: dirs.append(p)
        return entries

    def spell(self, s, shell, q=None, more=True):
        """a text which denotes s, started in quote q; and the quote left open"""
        r, out = self.rng, ''
        style = r.choice(['bare', 'bare', "'", '"', 'mixed'])
        if style in ('"', "'") : out, q = style, style
        for i, c in enumerate(s):
            if style == 'mixed' and r.random() < .2:
                if q: out, q = out + q, None
                else: q = r.choice('"\''); out += q
            if q is None:
                must = c in ALWAYS or (c in MARCEL and (not shell or c in '#:' or (i == 0 and not out))) or c == '~'
                bare_end = more is False and i == len(s) - 1 and c in '*?[' and out and r.random() < .4
                out += c if not must and (c == '/' or r.random() < .95) or bare_end else '\\' + c
            elif q == "'":
                out += c if c != "'" else "'\\''"
            else: out += '\\' + c if c in '"\\' else c
        if q and r.random() < .25: out, q = out + q, None
        return out

    def file(self, entries):
        r = self.rng
        op = r.choice(OPS)
        shell = op in SHELL
        pre = r.choice(['', '', '', 'gen 3 | ', 'ls | args (| f: ', 'gen 3 | map (x: x) | ', ' ']) + op + ' '
        if op in ('ls', 'prog', 'read') and r.random() < .4: pre += r.choice(['x ', '"x y" ', 'a\\ b ', '-z ' if op == 'prog' else '-0 ', "'' " if op == 'prog' else 'y '])
        paths = [p for p in entries if len(p) > 1]
        if not paths or r.random() < .06: target = ('cwd', self.name())
        else: target = r.choice(paths)
        below = target[1:-1]
        if target[0] == 'home': lead = r.choice(['~/', '~/', '../home/'])
        else: lead = r.choice(['', '', '', '', './', '../cwd/', '../cwd/./', 'ROOT/cwd/'])
        cut = r.randrange(len(target[-1]) + 1)
        where = ''.join(d + '/' for d in below)
        text = where + target[-1][:cut]
        tilde = lead == '~/'
        if lead.startswith('ROOT'): lead = lead.replace('ROOT', self.root)
        if tilde: tok = lead + self.spell(text, shell, more=False)
        else: tok = self.spell(lead + text, shell, more=False)
        return dict(kind='file', pre=pre, tok=tok, op=op)

    def word(self, words):
        r = self.rng
        w = r.choice(words)
        return w[:r.randrange(len(w) + 1)] + ('q' if r.random() < .05 else '')

    def case(self, entries, programs, users):
        r, p = self.rng, self.rng.random()
        if p < .6: return self.file(entries)
        if p < .72:
            pre = r.choice(['', '', ' ', 'gen 3 | ', 'ls | args (| ', 'ls | args (| f: ', 'gen 3 | map (x: x) | ', 'gen 3 |', 'gen 3 | join (| ', 'gen 2 | args (|'])
            return dict(kind='op', pre=pre, tok=self.word(r.choice([ALL_OPS, ALL_OPS, programs])), op='')
        if p < .82:
            op = r.choice(sorted(FLAGGED))
            pre = r.choice(['', '', 'gen 3 | ', 'gen 3 | map (x: x) | ', 'ls | args (| f: ']) + op + ' '
            if r.random() < .3 and FLAGGED[op]: pre += r.choice(FLAGGED[op].split()) + ' '
            return dict(kind='flag', pre=pre, tok='-' + self.word(FLAGGED[op].split() or ['-x'])[1:], op=op)
        if p < .86: return dict(kind='help', pre='help ', tok=self.word(ALL_OPS + TOPICS), op='')
        if p < .9: return dict(kind='user', pre=r.choice(['ls ', 'prog ', 'ls x ', 'cd ']), tok='~' + self.word(users), op='')
        s = r.choice(COMMANDS)
        s = s[:r.randrange(len(s) + 1)]
        if r.random() < .4:
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice(['(', ')', '"', "'", '\\', '|', '(|', '~', ' ', '$', '#', '/', '-', '@', '!', ':', '']) + s[i + r.randrange(2):]
        return dict(kind='any', pre='', tok=s, op='')




def build(gen, n):
    """a tree, and cases in it; the directory is made later"""
    gen.root = 'ROOT'
    entries = gen.tree()
    programs = ['prog', 'progress', 'zed', 'lsx']
    users = sorted({l.split(':')[0] for l in open('/etc/passwd')})
    cases = [gen.case(entries, programs, users) for _ in range(n)]
    # some are symbolic links: to an empty directory, to a file, or to nothing
    links = {}
    for p, isdir in entries.items():
        if len(p) > 1 and gen.rng.random() < .25:
            if not isdir: links[p] = gen.rng.choice(['file', 'nothing'])
            elif not any(q[:len(p)] == p and q != p for q in entries): links[p] = 'empty'
    return dict(entries=entries, links=links, programs=programs, users=users, cases=cases)


def run(s):
    root = tempfile.mkdtemp(prefix='cmp')
    try:
        os.mkdir(f'{root}/bin')
        for p in s['programs']:
            with open(f'{root}/bin/{p}', 'w') as f: f.write('#!/bin/sh\n')
            os.chmod(f'{root}/bin/{p}', 0o755)
        os.makedirs(f'{root}/targets/empty')
        open(f'{root}/targets/file', 'w').close()
        for p, isdir in s['entries'].items():
            path = root + '/' + '/'.join(p)
            if p in s['links']: os.symlink(f'{root}/targets/{s["links"][p]}', path)
            elif isdir: os.makedirs(path, exist_ok=True)
            else:
                with open(path, 'w'): pass
        home = os.listdir(f'{root}/home')
        env = shells.scratch_env(root)
        env['PATH'] = f'{root}/bin'
        cases = [dict(c, pre=c['pre'].replace('ROOT', root), tok=c['tok'].replace('ROOT', root)) for c in s['cases']]
        with open(f'{root}/cases.json', 'w') as f: json.dump({'root': root, 'lines': [c['pre'] + c['tok'] for c in cases]}, f)
        p = subprocess.run([vf.PY, os.path.join(vf.VERIF, 'harness', 'compdriver.py'), f'{root}/cases.json'], env=env, cwd=f'{root}/cwd', text=True,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if p.returncode: raise RuntimeError(p.stderr[-2000:])
        out = json.loads(p.stdout)
        at = [codes(x) for x in root.split('/')[1:]]
        entries = [{'path': at + [codes(x) for x in q], 'dir': d} for q, d in s['entries'].items()]
        entries += [{'path': at + [codes(x) for x in ('home', n)], 'dir': True} for n in ('.config', '.local') if n not in home]   # marcel's
        fs = {'cwd': at + [codes('cwd')], 'home': at + [codes('home')], 'entries': entries, 'programs': [codes(x) for x in s['programs']],
              'users': [codes(x) for x in s['users']]}
        return {'fs': fs, 'cases': [dict(kind=c['kind'], op=c['op'], tok=codes(c['tok']), fails=o['fails'] != '', changed=o['changed'],
                                         cands=[{'text': codes(t), 'back': b} for t, b in o['cands']]) for c, o in zip(cases, out)]}, out
    finally: shutil.rmtree(root, ignore_errors=True)


def run_all(sessions):
    results = [None] * len(sessions)
    todo = list(range(len(sessions)))[::-1]
    lock = threading.Lock()
    def work():
        while True:
            with lock:
                if not todo: return
                i = todo.pop()
            results[i] = run(sessions[i])
    ts = [threading.Thread(target=work) for _ in range(vf.NCPU)]
    for t in ts: t.start()
    for t in ts: t.join()
    return results


def check(ch):
    ch.model(vf.tlc('CompleteLaws', 'CompleteLawsBig.cfg' if vf.THOROUGH else 'CompleteLaws.cfg'), 'CompleteLaws: all short names and ways of typing them')
    g = Gen(ch.rng)
    sessions = [build(g, 60) for _ in range(vf.scaled(60, 700))]
    results = run_all(sessions)
    t = vf.tlc('CompleteTrace', env={'TRACE': vf.json_file([r for r, _ in results], ch.scratch)})
    ch.traces(t, len(sessions))
    kinds = {}
    for s in sessions:
        for c in s['cases']: kinds[c['kind']] = kinds.get(c['kind'], 0) + 1
    for k, n in sorted(kinds.items()): ch.count(f'{k} lines', n)
    bad = t.lines('BAD')
    for b in sorted(bad, key=lambda b: len(sessions[b['sid'] - 1]['cases'][b['k'] - 1]['tok'])):
        s = sessions[b['sid'] - 1]
        c, o = s['cases'][b['k'] - 1], results[b['sid'] - 1][1][b['k'] - 1]
        names = [list(p) + ['/'] * d for p, d in s['entries'].items()]
        ch.violation(f'{b["clause"]}: completing {c["pre"] + c["tok"]!r}: {o["cands"][:12]} {o["fails"]}; entries {names[:40]}',
                     {'line': c['pre'] + c['tok'], 'observed': o, 'entries': names})
    for s, (r, o) in list(zip(sessions, results))[:2]: ch.sample([[c['pre'] + c['tok'], x['cands'][:4]] for c, x in zip(s['cases'], o)][:6])
