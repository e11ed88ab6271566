"""Session server for the Python API of the marcel code under test: as mdriver.py, with steps {"api": mode, "code": ..., "pre": ...}.

"pre" is executed; "code" is an expression which gives a pipeline, consumed as mode says. The observation is
{"parts": [items, ...], "err": text, "n": calls counted}."""
import contextlib, io, json, os, re, signal, sys, traceback
import mdriver
from mdriver import Timeout


def enc(v):
    if v is None: return ['n']
    if isinstance(v, bool): return ['b', v]
    if isinstance(v, int): return ['i', v]
    if isinstance(v, str): return ['s', [ord(c) for c in v]]
    if isinstance(v, tuple): return ['t', [enc(x) for x in v]]
    if isinstance(v, list): return ['l', [enc(x) for x in v]]
    return ['s', [ord(c) for c in f'<<{v!r}>>']]


class Api(mdriver.Session):
    def start(self):
        os.environ['HOME'] = f'{self.scratch}/home'
        os.environ['USER'] = os.environ['LOGNAME'] = 'root'
        os.environ['TMPDIR'] = f'{self.scratch}/tmp'
        import tempfile
        tempfile.tempdir = None
        for d in ('home', 'cwd', 'tmp'): os.makedirs(f'{self.scratch}/{d}')
        os.chdir(f'{self.scratch}/cwd')
        import marcel.persistence.storagelayout
        marcel.persistence.storagelayout.ensure_current(testing=True, initial_config='')
        import types
        module = types.ModuleType('apins')
        sys.modules['apins'] = module
        self.ns = module.__dict__
        exec('from marcel.api import *', self.ns)
        self.ns['N'] = []

    def item(self, x, unwrapped):
        import marcel.object.error
        if isinstance(x, marcel.object.error.Error): return self.error(str(x))
        if not unwrapped:
            if not isinstance(x, (tuple, list)): return ['R', ['s', [ord(c) for c in f'not a row: {x!r}']]]
            return ['R', enc(tuple(x))]
        return ['R', enc(x)]

    def error(self, text):
        m = re.search(r"<class '(?:[\w.]*\.)?(\w+)'>", text)
        return ['E', m.group(1) if m else ('short' if 'too short' in text else 'other')]

    def step(self, s):
        ns = self.ns
        err, out = io.StringIO(), io.StringIO()
        parts, exc = [], None
        ns['N'].clear()
        # marcel writes to the file descriptors it had at first
        with open(f'{self.scratch}/err', 'w+') as ef, open(f'{self.scratch}/out', 'w+') as of:
            with contextlib.redirect_stdout(of), contextlib.redirect_stderr(ef):
                try:
                    signal.setitimer(signal.ITIMER_REAL, self.command_timeout)
                    try:
                        if s.get('pre'): exec(s['pre'], ns)
                        m = s.get('api')
                        if m:
                            p = eval(s['code'], ns)
                            if m == 'run': ns['run'](p)
                            elif m == 'store': ns['run'](p)
                            elif m == 'gather': parts.append([self.item(x, False) for x in ns['gather'](p, unwrap_singleton=False)])
                            elif m == 'gatheru': parts.append([self.item(x, True) for x in ns['gather'](p)])
                            elif m == 'list': parts.append([self.item(x, True) for x in p])
                            elif m == 'again':
                                for _ in range(2): parts.append([self.item(x, True) for x in p])
                                parts.append([self.item(x, True) for x in ns['gather'](p)])
                            elif m == 'part':
                                it = iter(p)
                                a = []
                                for _ in range(s['n']):
                                    try: a.append(next(it))
                                    except StopIteration: break
                                parts.append([self.item(x, True) for x in p])
                                parts.append([self.item(x, True) for x in a] + [self.item(x, True) for x in it])
                            elif m == 'prefix':        # using p as the beginning of another pipeline does not change p
                                q = p | ns['map'](lambda *x: 0) | ns['head'](1)
                                list(q)
                                parts.append([self.item(x, True) for x in p])
                            elif m == 'first':
                                try: x = ns['first'](p, unwrap_singleton=False)
                                except Exception as e: parts.append([self.error(str(e))])
                                else: parts.append([] if x is None else [self.item(x, False)])
                            else: raise ValueError(m)
                    finally:
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except Timeout:
                    exc = 'TIMEOUT'
                except BaseException as e:
                    exc = f'{type(e).__name__}: {e}'
                    if os.environ.get('MD_TRACE'): traceback.print_exc(file=sys.__stderr__)
            ef.flush(), of.flush()
            ef.seek(0), of.seek(0)
            r = {'parts': parts, 'out': of.read(400000), 'err': ef.read(400000), 'n': len(ns['N'])}
        if exc: r['exc'] = exc
        return r


mdriver.Session = Api


def main():
    import marcel.api
    mdriver.main()


if __name__ == '__main__':
    main()
