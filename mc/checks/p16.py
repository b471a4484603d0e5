"""Crash and restart of the iterator: every kill point, every torn write, every set of caching steps, on the real files.

Each killed execution is a forked process of its own working in its own folder.  The kill points are found by an audit hook (every open
for writing, rename or removal of a file in that folder) plus the entry and the end of every solver call; torn writes are made by
the kernel (RLIMIT_FSIZE cuts the write at the byte and SIGXFSZ kills the process).  The clock the iterator reads is ours, so that
every subset of the steps can be made the one at which caching is due.
"""
import contextlib
import io
import itertools
import json
import os
import pickle
import re
import resource
import shutil
import signal
import sys
import tempfile
import time
import numpy as np
import boot
import phyem as ph
from checks.common import group, run_group

ID = 'P16'
RULE = ('explicit-state search over the contents of the cache folder: from every reached folder, every subset of the remaining steps '
        'as caching steps and every kill point (before/after each solver call, before each file operation, each torn write), up to a '
        'number of crashes; every distinct folder is restarted and run to its end and compared with the uninterrupted run; plus '
        'every order of integer inputs x every recorded prefix')
ASSUMPTIONS = ['a process kill, not a power failure: completed system calls survive',
               'inputs of one program are distinct; the solver is deterministic given the cached objects',
               'the png report is not drawn (its drawing library is replaced by a stand-in) but in one task']
TIMEOUT = {'quick': 500, 'thorough': 3400}
LEVEL = 'fault_enumeration'

CT = 1.0            # cache time given to the iterator
CLOCK = {'on': False, 't': 1e9}
REAL_TIME, REAL_SLEEP = time.time, time.sleep


def fake_time():
    if not CLOCK['on']:
        return REAL_TIME()
    CLOCK['t'] += 1e-7
    return CLOCK['t']


def fake_sleep(s):
    if not CLOCK['on']:
        REAL_SLEEP(s)


class Nothing:
    """stands in for the drawing library"""

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        return self

    def __setattr__(self, nm, v):
        pass

    def __call__(self, *a, **k):
        return self

    def __iter__(self):
        return iter((Nothing(), Nothing()))

    def __getitem__(self, i):
        return self

    def __setitem__(self, i, v):
        pass


def patch(picture=False):
    """in the executing process: our clock, no sleeping, no drawing"""
    time.time, time.sleep = fake_time, fake_sleep
    for nm in ('perf_counter', 'monotonic'):
        setattr(time, nm, fake_time)
    for nm, m in list(sys.modules.items()):
        if nm.startswith('phyem.tools.iterator'):
            for a, v in list(vars(m).items()):
                if v is REAL_TIME:
                    setattr(m, a, fake_time)
                elif v is REAL_SLEEP:
                    setattr(m, a, fake_sleep)
                elif a == 'plt' and not picture:
                    setattr(m, a, Nothing())
    import psutil
    psutil.cpu_percent = lambda *a, **k: 0.
    CLOCK['on'] = True


class Counter:
    """a cache-able object: its state is what the solver depends on"""

    def __init__(self, name, x):
        self.name = name
        self.x = x

    def _make_cache_data(self, t=None):
        return {'x': self.x}

    def _read_cache_data(self, data):
        self.x = data['x']

    def state(self):
        return self.x


class FormState:
    """a real form"""

    def __init__(self, f):
        self.f = f
        f.cochain.clean('all')
        f[0].cochain = {e: np.cos(np.arange(len(self.gm(e))) + e) for e in self.elems()}

    def gm(self, e):
        return np.asarray(self.f.cochain.gathering_matrix[e])

    def elems(self):
        return list(self.f.tpm.composition)

    def state(self):
        c = self.f[None].cochain
        return [self.f.cochain.newest] + [np.asarray(c[e]).tolist() for e in self.elems()]


PROGS = {
    'ints': dict(runs=[[0, 1, 2, 3, 4]]),
    'unordered': dict(runs=[[3, -1, 4, 0]]),
    'floats': dict(runs=[[0.5, 1.0, 1.5, 2.0]]),
    'close floats': dict(runs=[[0.1, 0.100001, 0.1000011, 1e-7]]),
    'mixed': dict(runs=[[1, 1.5, 2, 1e9]]),
    'stop': dict(runs=[[0, 1, 2, 3]], stop=2),
    'stop at last': dict(runs=[[0, 1, 2]], stop=2),
    'two objects': dict(runs=[[1, 2, 3]], nobj=2, initials=None),
    'two runs': dict(runs=[[0, 1], [2, 3]]),
    'linspace': dict(runs=[[float(x) for x in np.linspace(0, 1, 4)[1:]]], numpy=True),
    'form': dict(runs=[[1, 2, 3]], form=True),
    'two forms': dict(runs=[[1, 2, 3]], form=2),
    'monitored': dict(runs=[[0, 1, 2]], factor=1),
    'two long runs': dict(runs=[[0, 1, 2], [3, 4, 5]]),
    'long': dict(runs=[[0, 1, 2, 3, 4, 5, 6]]),
}
FORMS = {}


def forms(n):
    if 'f' not in FORMS:
        ph.config.set_embedding_space_dim(2)
        M = ph.manifold(2)
        m = ph.mesh(M)
        ph.space.set_mesh(m)
        sp = ph.space.new('Lambda', 1, orientation='outer')
        fs = {f'f{i}': sp.make_form(r'f_{%d}' % i, f'f{i}') for i in range(2)}
        ph.space.finite(1)
        impl, obj = ph.fem.apply('msehtt', dict(M=M, m=m, **fs))
        coo = {'a': (0, 0), 'b': (1, 0), 'c': (1, 1), 'd': (0, 1), 'e': (2, 0.2), 'f': (2, 1.3)}
        impl.config('tgm')(('tqr', {0: 9, 1: 5}, coo, {0: ['a', 'b', 'c', 'd'], 1: ['b', 'e', 'f']}), element_layout=0)
        impl.config(obj['m'])(impl.base['the_great_mesh'], including='all')
        FORMS['f'] = [obj['f0'], obj['f1']]
    return FORMS['f'][:n]


# -- one execution in a process of its own ---------------------------------------------------------------------------------
def program(prog, mask, emit, event):
    """the user's program: build, run, report (in the child)"""
    P = PROGS[prog]
    calls = []
    if P.get('form'):
        objs = [FormState(f) for f in forms(int(P['form']))]
    else:
        objs = [Counter(f'c{i}', 10 + i) for i in range(P.get('nobj', 1))]
    flat = [x for r in P['runs'] for x in r]

    def solver(i):
        """one step

        Parameters
        ----------
        i :
            the input

        Returns
        -------
        exit_code :
        message :
        value :
        error :
        """
        event('call', i)
        calls.append(i)
        n = flat.index(i)
        for j, o in enumerate(objs):
            if isinstance(o, FormState):
                f = o.f
                c = f[None].cochain
                f[float(i)].cochain = {e: 0.5 * np.asarray(c[e]) + i + j for e in o.elems()}
            else:
                o.x = o.x * 3 + int(7 * i) + j
        x = objs[0].state()
        v = float(x[1][0]) if isinstance(x, list) else x
        CLOCK['t'] += 5 * CT if n in mask else 1e-6
        event('done', i)
        code = 1 if P.get('stop') == i else 0
        return code, f'step {i}', v, v / 7

    init = P.get('initials', [0, 0.25])
    it = ph.iterator(solver, init, monitoring_factor=P.get('factor', 0), name='it')
    it.cache(*[o.f if isinstance(o, FormState) else o for o in objs], time=CT)
    out = []
    for r in P['runs']:
        event('run', None)
        a = np.array(r) if P.get('numpy') else r
        it.run(a, pbar=False)
        out.append(dict(rdf=[[float(x) for x in row] for row in it.RDF.values.tolist()], cols=list(it.RDF.columns), code=it.exit_code,
                        csv=open('it.csv').read()))
    emit(('end', out, [o.state() for o in objs]))
    event('end', None)


def whole(folder, prog, mask, sizes):
    """an execution that nothing kills: in this process"""
    msgs = []
    old = os.getcwd()
    patch()
    folder = os.path.realpath(folder)
    count = [0]

    def event(kind, what):
        k = count[0]
        count[0] += 1
        msgs.append((k, kind, what, {f.name: f.stat().st_size for f in os.scandir('.')} if sizes else None))

    HOOK.update(folder=folder, event=event)
    if 'installed' not in HOOK:
        HOOK['installed'] = True
        sys.addaudithook(hook)
    how = 'exit 0'
    try:
        os.chdir(folder)
        with contextlib.redirect_stdout(io.StringIO()):
            program(prog, mask, msgs.append, event)
    except Exception as e:
        import core
        msgs.append(('error', f'{e!r}\n' + core.tb_tail(e)))
        how = 'exit 1'
    finally:
        HOOK.update(folder=None)
        os.chdir(old)
    return msgs, how


HOOK = {'folder': None, 'busy': False}


def hook(name, args):
    if HOOK['folder'] is None or HOOK['busy']:
        return
    if name == 'open':
        path, mode, flags = args
        if not isinstance(path, (str, bytes)):
            return
        wr = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (
            isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR))
        if not wr:
            return
    elif name in ('os.rename', 'os.remove', 'os.truncate', 'os.link', 'os.symlink', 'os.mkdir', 'os.rmdir', 'shutil.move',
                  'shutil.copyfile'):
        path = args[0]
    else:
        return
    path = os.fsdecode(path) if isinstance(path, (str, bytes)) else ''
    HOOK['busy'] = True
    try:
        if os.path.realpath(path).startswith(HOOK['folder'] + os.sep):
            HOOK['event'](name, os.path.basename(path))
    finally:
        HOOK['busy'] = False


def execute(folder, prog, mask, kill=None, torn=None, sizes=False, picture=False):
    """run the program in the folder; killed before event number ``kill``; if ``torn``, the write opened at event ``kill`` is cut
    at that many bytes instead.  -> (list of emitted messages, how it ended)"""
    if kill is None and not picture:
        return whole(folder, prog, mask, sizes)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 1
        try:
            os.chdir(folder)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            folder = os.path.realpath(folder)
            count = [0]

            def emit(x):
                b = pickle.dumps(x)
                os.write(w, len(b).to_bytes(4, 'little') + b)

            def event(kind, what):
                k = count[0]
                count[0] += 1
                if kill == k:
                    if torn is None:
                        os.kill(os.getpid(), signal.SIGKILL)
                    else:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (torn, torn))
                size = None
                if sizes:
                    size = {f.name: f.stat().st_size for f in os.scandir('.')}
                emit((k, kind, what, size))

            patch(picture)
            HOOK.update(folder=folder, event=event)
            if 'installed' not in HOOK:
                sys.addaudithook(hook)
            program(prog, mask, emit, event)
            code = 0
        except BaseException as e:
            try:
                import core
                emit(('error', f'{e!r}\n' + core.tb_tail(e)))
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    msgs = []
    while buf:
        n = int.from_bytes(buf[:4], 'little')
        msgs.append(pickle.loads(buf[4:4 + n]))
        buf = buf[4 + n:]
    return msgs, ('killed' if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st))


def snapshot(folder):
    return {f.name: open(f.path, 'rb').read() for f in os.scandir(folder) if f.is_file() and not f.name.endswith('.png')}


class Lab:
    def __init__(self, prog, rec):
        self.prog, self.rec = prog, rec
        self.base = tempfile.mkdtemp(prefix='p16-', dir=os.environ.get('MC_SCRATCH'))
        self.n = 0
        P = PROGS[prog]
        if P.get('form'):
            forms(int(P['form']))
        self.flat = [x for r in P['runs'] for x in r]
        if 'stop' in P:
            self.flat = self.flat[:self.flat.index(P['stop']) + 1]

    def folder(self, snap):
        self.n += 1
        d = os.path.join(self.base, str(self.n))
        os.mkdir(d)
        for nm, b in snap.items():
            with open(os.path.join(d, nm), 'wb') as f:
                f.write(b)
        return d

    def run(self, snap, mask, **k):
        d = self.folder(snap)
        msgs, how = execute(d, self.prog, mask, **k)
        new = snapshot(d)
        shutil.rmtree(d)
        self.rec.step()
        return msgs, how, new

    def close(self):
        shutil.rmtree(self.base)


def same(a, b):
    return json.dumps(a) == json.dumps(b)       # nan equal to nan


def end_of(msgs):
    return [m for m in msgs if m[0] == 'end']


def done_of(msgs):
    return [m[2] for m in msgs if len(m) == 4 and m[1] == 'done']


def called(msgs):
    return [m[2] for m in msgs if len(m) == 4 and m[1] == 'call']


def content(snap):
    """the cache as its reader shows it (times left out), or None when it cannot be read"""
    from phyem.tools.iterator.cache_reader import cache_reader
    b = snap.get('it.phc')
    if b is None:
        return 'absent'
    d = tempfile.mkdtemp(prefix='p16r-', dir=os.environ.get('MC_SCRATCH'))
    try:
        fn = os.path.join(d, 'it.phc')
        with open(fn, 'wb') as f:
            f.write(b)
        return cache_reader(fn)
    except Exception as e:
        return repr(e)
    finally:
        shutil.rmtree(d)


def canon(snap):
    c = content(snap)
    if isinstance(c, dict):
        c = {k: v for k, v in c.items() if k not in ('log', 'cache count', 'cache_count')}
        return repr(sorted(c.items(), key=lambda kv: kv[0]))
    return repr(c)


def ths(snap):
    """the numbering of the caches in the log"""
    c = content(snap)
    if isinstance(c, dict) and isinstance(c.get('log'), str):
        return [int(x) for x in re.findall(r'CACHE::: (\d+)th', c['log'])]
    return []


def explore(t, rec):
    prog = t['prog']
    L = Lab(prog, rec)
    try:
        _explore(t, rec, L)
    finally:
        L.close()


def _explore(t, rec, L):
    prog = t['prog']
    n = len(L.flat)
    # the uninterrupted run without any caching
    msgs, how, snap0 = L.run({}, ())
    if not rec.ok(how == 'exit 0' and end_of(msgs), f'{prog}|uninterrupted', lambda: str(msgs[-1])):
        return
    ref = end_of(msgs)[0]
    rec.ok(called(msgs) == L.flat, f'{prog}|uninterrupted calls', lambda: str(called(msgs)))

    def judge(key, msgs, how, before_recorded):
        """a run that was not killed: it ends well, calls exactly the steps after the recorded ones, and the results are right"""
        err = [m for m in msgs if m[0] == 'error']
        if not rec.ok(how == 'exit 0' and end_of(msgs), f'{key}|ends', lambda: str(err or how)):
            return None
        e = end_of(msgs)[0]
        c = called(msgs)
        rec.ok(c == L.flat[n - len(c):], f'{key}|steps', lambda: f'called {c}')
        k = n - len(c)
        lo, hi = before_recorded
        rec.ok(lo <= k <= hi, f'{key}|nothing lost', lambda: f'{k} steps were recorded, not between {lo} and {hi}')
        for a, b in zip(e[1], ref[1]):
            rec.ok(same(a['rdf'], b['rdf']) and a['cols'] == b['cols'], f'{key}|results', lambda: f'{a["rdf"]} not {b["rdf"]}')
            rec.ok(same_csv(a['csv'], b['csv']), f'{key}|csv', lambda: f'{a["csv"]} not {b["csv"]}')
            rec.ok(a['code'] == b['code'], f'{key}|exit code')
        rec.ok(same(e[2], ref[2]), f'{key}|objects', lambda: f'{e[2]} not {ref[2]}')
        return k

    frontier = [({}, 0, 'fresh', 0)]          # folder, recorded steps, how we came here, number of caches
    seen = set()
    restarted = {}
    for depth in range(t['crashes'] + 1):
        nxt = []
        for snap, recorded, path, ncache in frontier:
            masks = [m for q in range(n - recorded + 1) for m in itertools.combinations(range(recorded, n), q)]
            if depth > 0 and t.get('thin'):
                masks = [m for m in masks if len(m) <= 1 or len(m) == n - recorded]
            for mask in masks:
                key = f'{prog}|{path}>caching at {list(mask)}'
                msgs, how, after = L.run(snap, mask, sizes=True)
                rec.trace()
                k = judge(key, msgs, how, (recorded, recorded))
                if k is None:
                    continue
                nums = ths(after)
                rec.ok(nums == list(range(1, len(nums) + 1)) and (not nums or len(nums) == ncache + len(mask)), f'{key}|cache count',
                       lambda: f'{nums}, {ncache} before, {len(mask)} new')
                # a restart of the completed program takes everything up to the last caching step from the cache
                last = mask[-1] + 1 if mask else recorded
                ck = (canon(after), last)
                if ck not in restarted:
                    m2, h2, _ = L.run(after, ())
                    restarted[ck] = judge(f'{key}>end>restart', m2, h2, (last, last))
                if depth == t['crashes']:
                    continue
                evs = [m for m in msgs if len(m) == 4]
                # -- all kill points
                # (before the last caching step is done the execution is that of a smaller set of caching steps, and is done there;
                # afterwards the files change no more: of the solver calls only the next one is a kill point of its own)
                points = []
                l = mask[-1] if mask else -1
                start = next((j for j, e in enumerate(evs) if e[1] == 'done' and L.flat.index(e[2]) == l), 0)
                for j, ev in enumerate(evs):
                    if j < start or (ev[1] in ('call', 'done') and mask and L.flat.index(ev[2]) + (ev[1] == 'done') > l + 1):
                        continue
                    points.append((ev[0], None))
                    if ev[1] == 'open' and t.get('torn'):
                        size = (evs[j + 1][3] or {}).get(ev[2], 0) if j + 1 < len(evs) else 0
                        if ev[2] == 'it.csv' and not t['torn'] == 'all':
                            continue
                        if t['torn'] == 'all':
                            cuts = range(size)
                        else:
                            cuts = sorted({0, 1, size // 2, size - 1} | set(range(0, size, t['torn'])))
                        points += [(ev[0], c) for c in cuts if 0 <= c < size]
                for kill, torn in points:
                    ev = next(e for e in evs if e[0] == kill)
                    kk = f'{key}>killed {"at byte %d of" % torn if torn is not None else "before"} {ev[1]} {ev[2]} (#{kill})'
                    m1, h1, s1 = L.run(snap, mask, kill=kill, torn=torn)
                    rec.outcome(h1)
                    if not rec.ok(h1 == 'killed', f'{kk}|was killed', lambda: str(m1[-1:])):
                        continue
                    dn = done_of(m1)
                    idx = [L.flat.index(x) for x in dn]
                    j = max(idx, default=recorded - 1)
                    inprogress = j if called(m1)[-1:] == dn[-1:] else j + 1
                    sure = [i for i in mask if i < j or (i == j and len(called(m1)) > len(dn))]
                    lo = max([recorded] + [i + 1 for i in sure])
                    hi = max(j + 1, recorded)
                    del inprogress
                    c = content(s1)
                    rec.ok(isinstance(c, dict) or c == 'absent' and 'it.phc' not in snap, f'{kk}|cache readable', lambda: str(c))
                    cn = (canon(s1), lo, hi, tuple(sorted((nm, b) for nm, b in s1.items() if nm not in ('it.phc', 'it.csv'))))
                    if cn in restarted:
                        rec.outcome('folder seen')
                        k2 = restarted[cn]
                    else:
                        m2, h2, s2 = L.run(s1, ())
                        rec.trace()
                        k2 = restarted[cn] = judge(f'{kk}>restart', m2, h2, (lo, hi))
                    ca = canon(s1)
                    if k2 is not None and ca not in seen:
                        seen.add(ca)
                        rec.state(prog, ca)
                        nxt.append((s1, k2, f'{path}>{list(mask)}#{kill}{"" if torn is None else "@%d" % torn}', len(ths(s1))))
        frontier = nxt
        rec.outcome(f'folders after {depth + 1} crashes: {len(nxt)}')
    rec.sample({'program': prog, 'steps': L.flat, 'distinct caches': len(seen)})


def same_csv(a, b):
    """the same table (the numbers may be printed as integers or as floats)"""
    def cells(s):
        out = []
        for line in s.strip().splitlines():
            row = []
            for x in line.split(','):
                try:
                    row.append(float(x))
                except ValueError:
                    row.append(x)
            out.append(row)
        return out
    return same(cells(a), cells(b))


# -- orders of integer inputs: what is recorded is exactly what was computed ---------------------------------------------------
def orders(t, rec):
    base = tempfile.mkdtemp(prefix='p16o-', dir=os.environ.get('MC_SCRATCH'))
    old = os.getcwd()
    patch()
    os.chdir(base)
    vals = t['values']
    probe = sorted({x + d for x in vals if isinstance(x, int) for d in (-1, 0, 1)} | set(vals))
    calls = []

    def solver(i):
        """one step

        Parameters
        ----------
        i :

        Returns
        -------
        exit_code :
        message :
        value :
        """
        calls.append(i)
        CLOCK['t'] += 5 * CT
        return 0, '', 2.0 * i + 1

    def go(inputs, name='it'):
        calls.clear()
        with contextlib.redirect_stdout(io.StringIO()):
            it = ph.iterator(solver, [0.], monitoring_factor=0, name='it')
            it.cache(time=CT)
            it.run(inputs, pbar=False)
        return list(calls), [float(x) for x in it.RDF['value']][1:]

    try:
        for p in itertools.permutations(vals):
            if t['first'] is not None and list(p[:len(t['first'])]) != t['first']:
                continue
            p = list(p)
            key = f'order {p}'
            if os.path.exists('it.phc'):
                os.remove('it.phc')
            for q in range(1, len(p) + 1):
                good, x = rec.guard(f'{key}|first {q}', go, p[:q])
                if not good:
                    break
                c, v = x
                rec.state(key, q)
                rec.ok(c == p[q - 1:q], f'{key}|prefix {q} calls', lambda: f'{c}')
                rec.ok(v == [2.0 * i + 1 for i in p[:q]], f'{key}|prefix {q} results', lambda: f'{v}')
                saved = open('it.phc', 'rb').read()
                for x in (probe if t['probe'] else ()):
                    good, y = rec.guard(f'{key}|probe {x}', go, [x])
                    if good:
                        rec.ok((y[0] == []) == (x in p[:q]), f'{key}|prefix {q} probe {x}', lambda: f'calls {y[0]}')
                        rec.ok(y[1] == [2.0 * x + 1], f'{key}|prefix {q} probe {x} result', lambda: f'{y[1]}')
                    with open('it.phc', 'wb') as f:
                        f.write(saved)
            rec.trace()
    finally:
        os.chdir(old)
        shutil.rmtree(base)


def picture(t, rec):
    """the whole thing with the real report"""
    L = Lab('ints', rec)
    try:
        a, how, snap = L.run({}, (1, 3), picture=True)
        rec.ok(how == 'exit 0', 'picture|ends', lambda: str(a[-1]))
        b, how, _ = L.run(snap, (), picture=True)
        rec.ok(how == 'exit 0' and end_of(a) and end_of(b) and same(end_of(a)[0][1:], end_of(b)[0][1:]), 'picture|restart', lambda: str(b[-1]))
        rec.state('picture')
        rec.trace(2)
    finally:
        L.close()


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for p, d in PROGS.items():
        if 'long' in p and not th:
            continue
        n = sum(len(r) for r in d['runs'])
        out.append(dict(kind='explore', prog=p, crashes=2 if (n <= 3 or th) and p not in ('monitored', 'two forms') else 1, thin=n > 3, torn=('all' if th and p in (
            'ints', 'form', 'stop at last') else 31 if th else 10 ** 6)))
    for v in ([0, 1, 2, 3, 4], [-2, -1, 0, 1]) + (([0, 1, 2, 3, 4, 5], [0, 1, 2, 4, 5, 6]) if th else ()):
        for f in v:
            out.append(dict(kind='orders', values=v, first=[f], probe=len(v) < 5 or th))
    out.append(dict(kind='orders', values=[0.5, 0.50000001, 1, 2.0, 1.5], first=None, probe=False))
    out.append(dict(kind='picture'))
    return out


def run(t, rec):
    return dict(explore=explore, orders=orders, picture=picture)[t['kind']](t, rec)
