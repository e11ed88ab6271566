"""Completes lines in a session of the marcel code under test: python compdriver.py CASES.json, prints the candidates.

CASES.json: {"root", "lines": [text]}. The session starts in root/cwd; home is root/home. Prints a list of
{"cands": [[text, characters replaced]], "fails": text or "", "changed": bool}."""
import contextlib, io, json, os, sys

cases = json.load(open(sys.argv[1]))
root = cases['root']
os.chdir(root + '/cwd')
import marcel.env, marcel.main, marcel.object.workspace, marcel.persistence.storagelayout
marcel.persistence.storagelayout.ensure_current(testing=True, initial_config='v1 = (1)\n')
env = marcel.env.EnvironmentInteractive.create(workspace=marcel.object.workspace.Workspace.default())
main = marcel.main.MainInteractive(old_main=None, env=env, testing=True)
env.dir_state().change_current_dir(root + '/cwd')
import marcel.tabcompleter
from prompt_toolkit.document import Document
completer = marcel.tabcompleter.TabCompleter(env)


def state():
    return (os.getcwd(), sorted((k, repr(v)) for k, v in env.vars().items()), [str(d) for d in env.dir_state().directories()] if hasattr(env.dir_state(), 'directories') else '')


out = []
before = state()
for line in cases['lines']:
    o, e = io.StringIO(), io.StringIO()
    doc = {'cands': [], 'fails': '', 'changed': False}
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        try: doc['cands'] = [[c.text, -c.start_position] for c in completer.get_completions(Document(line), None)]
        except BaseException as x: doc['fails'] = f'{type(x).__name__}: {x}'
    if o.getvalue() or e.getvalue(): doc['fails'] = doc['fails'] or 'writes: ' + (o.getvalue() + e.getvalue())[-300:]
    now = state()
    doc['changed'] = now != before
    before = now
    out.append(doc)
print(json.dumps(out))
