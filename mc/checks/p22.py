"""Histories of worlds and of calls in one process against the same call in a fresh process."""
import gc
import os
import pickle
from checks.common import *
import meshes
import problems
from core import Rec
from phyem.tools.miscellaneous.geometries.m2n2 import StraightSegment2   # noqa
import phyem as ph

ID = 'P22'
LEVEL = 'model_checking'
RULE = ('explicit exploration, by forking the real process at every node, of: all sequences (up to the depth bound) of worlds '
        '(mesh, degree, forms, or a whole discrete problem) built from families of near twins in one process, each kept or '
        'dropped afterwards; all ordered pairs (triples with the first repeated) of calls on one world; all pairs (call, change '
        'of state); all argument arrays changed in place after the call. After every step every value must be the one of the '
        'same call in a fresh process, and everything handed out before must still have the value it had')
ASSUMPTIONS = ('results are compared to a relative difference of 1e-9; the caller does not write into results')
TIMEOUT = {'quick': 400, 'thorough': 3000}
G1 = np.array([-0.9, 0.05, 0.4, 1.0])
G2 = np.array([-0.9, 0.05, 0.4 + 1e-6, 1.0])
G3 = np.array([-0.3, 0.3])
T = 0.5


# ---------------------------------------------------------------------------------------------------- worlds
def P1(name, coo, cells=None):
    return tqr(name, cells or [list('abcd')], coo)


QA = {'a': [0, 0], 'b': [1, 0], 'c': [1, 1], 'd': [0, 1]}
QB = {'a': [0, 0], 'b': [1, 0], 'c': [1.003, 1.004], 'd': [0, 1]}
QC = {'a': [0, 0], 'b': [1, 0], 'c': [1.00301, 1.00402], 'd': [0, 1]}
QD = {'a': [2, 0], 'b': [3, 0], 'c': [3.003, 1.004], 'd': [2, 1]}
QE = {'a': [0, 0], 'b': [1, 0], 'c': [1.004, 1.003], 'd': [0, 1]}
TA = {'a': [0, 0], 'b': [1, 0], 'c': [1.2, 0.7], 'd': [0.1, 1]}
TB = {'a': [0, 0], 'b': [1, 0], 'c': [1.2003, 0.7], 'd': [0.1, 1]}
U = dict(element_layout=2, c=0.0, periodic=False)


def families(tier):
    out = {}
    cr = lambda n, **k: M(n, 'crazy', dict(U, **k))
    out['degrees'] = [(cr('u'), 1), (cr('u'), 2), (cr('u'), [1, 2]), (cr('u'), [2, 1]), (cr('u'), [[1, 2], [2, 1]]),
                      (cr('u'), [[2, 1], [1, 2]])]
    out['geometry'] = [(cr('u'), 2), (cr('c.1', c=0.1), 2), (cr('c.1001', c=0.1001), 2), (cr('b', bounds=[[0, 1], [0, 2]]), 2),
                       (cr('b2', bounds=[[0, 2], [0, 1]]), 2), (cr('per', c=0.1, periodic=True, element_layout=3), 2)]
    out['layout'] = [(cr('21', element_layout=[2, 1]), 2), (cr('12', element_layout=[1, 2]), 2),
                     (cr('w', element_layout=[[1, 2], [1]]), 2), (cr('w2', element_layout=[[2, 1], [1]]), 2)]
    out['quads'] = [(P1('qa', QA), 2), (P1('qb', QB), 2), (P1('qc', QC), 2), (P1('qd', QD), 2), (P1('qe', QE), 2),
                    (P1('qr', QB, [list('bcda')]), 2)]
    tri = [['a', 'b', 'c'], ['a', 'c', 'd']]
    out['triangles'] = [(P1('ta', TA, tri), 2), (P1('tb', TB, tri), 2), (P1('tr', TA, [['b', 'c', 'a'], ['c', 'd', 'a']]), 2),
                        (P1('ts', TA, [['c', 'a', 'b'], ['a', 'c', 'd']]), 2), (P1('ta', TA, tri), 1), (P1('q', TA), 2)]
    h = lambda n, **k: M(n, 'crazy', dict(dict(element_layout=[2, 1, 1], c=0.0, periodic=False), **k), 3)
    out['3d'] = [(h('h'), 1), (h('h'), 2), (h('hc', c=0.05), 1), (h('hb', bounds=[[0, 1], [0, 2], [0, 1]]), 1), (h('h'), [1, 2, 1])]
    D = mp.D
    B2 = [[0, 1], [0, 1]]
    p = lambda n, K, **k: D(n, 'crazy', K, **dict(dict(c=0.0, periodic=False, bounds=B2), **k))
    out['msepy'] = [(p('p22', 2), 1), (p('p22', 2), 2), (p('p22', 2), [1, 2]), (p('p22c', 2, c=0.1), 2),
                    (p('p22d', 2, c=0.1001), 2), (p('p22b', 2, bounds=[[0, 2], [0, 1]]), 2), (p('p23', [2, 3]), 2)]
    out['msepy2'] = [(p('p33p', 3, periodic=True), 2), (D('multi', 'crazy_multi', [2, 1], c=0.05, periodic=False, bounds=B2), 2),
                     (D('step', 'backward_step', 1), 2), (D('cyl', 'cylinder_channel', 1), 2), (p('p22', 2), 3)]
    B3 = [[0, 1]] * 3
    out['msepy3'] = [(D('3', 'crazy', [2, 1, 1], dim=3, c=0., periodic=False, bounds=B3), 1),
                     (D('3c', 'crazy', [2, 1, 1], dim=3, c=0.1, periodic=False, bounds=B3), 1),
                     (D('3r', 'crazy', [1, 2, 1], dim=3, c=0., periodic=False, bounds=B3), 1),
                     (D('3', 'crazy', [2, 1, 1], dim=3, c=0., periodic=False, bounds=B3), 2)]
    out['msepy1'] = [(D('1', 'crazy', 3, dim=1, c=0., periodic=False, bounds=[[0, 1]]), 1),
                     (D('1c', 'crazy', 3, dim=1, c=0.1, periodic=False, bounds=[[0, 1]]), 1),
                     (D('1', 'crazy', 3, dim=1, c=0., periodic=False, bounds=[[0, 1]]), 2),
                     (D('1b', 'crazy', 3, dim=1, c=0., periodic=False, bounds=[[0, 2]]), 2)]
    out['mixed'] = [(cr('u'), 2), (p('p22', 2), 2), (h('h'), 1), (P1('ta', TA, tri), 2)]
    q = lambda n, **k: M(n, 'rectangle', dict(dict(element_layout=[2, 1]), **k))
    out['problems'] = [(q('r'), 1, 'outer', 1, 0), (q('r'), 1, 'inner', 1, 0), (q('r'), 1, 'outer', 2, 1), (q('r'), 2, 'outer', 1, 1),
                       (q('r12', element_layout=[1, 2]), 1, 'outer', 1, 1), (cr('rb', element_layout=[2, 1], bounds=[[0, 1], [0, 2]]), 1, 'outer', 1, 3)]
    out['problems crazy'] = [(cr('u'), 1, 'outer', 1, 1), (cr('c', c=0.1), 1, 'outer', 1, 1), (cr('w', element_layout=[[1, 2], 1]), 1, 'outer', 1, 0),
                             (cr('u'), 1, 'nonlinear', 1, 0), (cr('c', c=0.1), 1, 'nonlinear', 1, 1)]
    out['problems msepy'] = [(p('p22', 2), 1, 'outer', 1, 1), (p('p22', 2), 1, 'inner', 1, 0), (p('p22', 2), 2, 'outer', 2, 1),
                             (p('p22c', 2, c=0.1), 1, 'outer', 1, 3), (p('p22', 2), 1, 'nonlinear', 1, 0), (p('p22c', 2, c=0.1), 1, 'nonlinear', 1, 1)]
    return out


def tasks(tier):
    out = []
    for f, ws in families(tier).items():
        big = f in ('3d', 'msepy3')
        for i in range(len(ws)):
            if tier != 'quick' or i % 2 == 0:
                out.append(dict(kind='worlds', family=f, first=list(range(i, min(len(ws), i + 2))) if tier == 'quick' else [i],
                                depth=2 if tier == 'quick' else 3))
            if tier != 'quick' or i == 0:
                out.append(dict(kind='calls', family=f, world=i, all=tier != 'quick'))
        if not f.startswith('problems'):
            for i in (0, 2) if tier == 'quick' else range(len(ws)):
                out.append(dict(kind='args', family=f, world=i))
    return out


def run(task, rec):
    fam = families('x')[task['family']]
    dict(worlds=worlds, calls=calls, args=arguments)[task['kind']](task, rec, fam)


# --------------------------------------------------------------------------------------------------- forking
def forked(fn, rec=None, *a):
    """fn(rec2, *a) in a forked process; its record is merged into rec; returns its result (None if it died)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            rc = Rec()
            try:
                v = fn(rc, *a)
            except BaseException as e:
                import core
                rc.bad(f'raise:{type(e).__name__}', repr(e) + core.tb_tail(e))
                v = None
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps((rc.__dict__, v)))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        if rec is not None:
            rec.bad('died', 'a forked process died')
        return None
    d, v = pickle.loads(data)
    if rec is not None:
        rec.states |= d['states']
        for k in ('transitions', 'traces', 'decisions'):
            setattr(rec, k, getattr(rec, k) + d[k])
        for k, n in d['outcomes'].items():
            rec.outcomes[k] = rec.outcomes.get(k, 0) + n
        for k, t in d['viol']:
            rec.bad(k, t)
        rec.nviol += d['nviol'] - len(d['viol'])
    return v


def canon(x, out=None):
    """all the numbers in a result, in a fixed order"""
    top = out is None
    out = [] if top else out
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            canon(x[k], out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            canon(y, out)
    elif isinstance(x, (set, frozenset)):
        canon(sorted(x), out)
    elif x is None:
        pass
    elif isinstance(x, str):
        out.append(np.array([float(sum(ord(c) * (i + 1) for i, c in enumerate(x)))]))
    elif sp.issparse(x):
        out.append(np.array(x.toarray(), dtype=float).ravel())
    else:
        out.append(np.array(x, dtype=float).ravel().copy())
    if not top:
        return None
    return np.concatenate([np.array([float(len(q)) for q in out])] + out) if out else np.zeros(0)


def same(rec, a, b, key, what):
    rec.decisions += 1
    if isinstance(a, str) or isinstance(b, str):
        good = isinstance(a, str) and isinstance(b, str)
        if not good:
            rec.bad(key, f'{what}: {a if isinstance(a, str) else "value"} instead of {b if isinstance(b, str) else "value"}')
        return good
    if a.shape != b.shape:
        rec.bad(key, f'{what}: {a.shape} not {b.shape}')
        return False
    if a.size and not np.array_equal(a, b):
        d = np.abs(a - b)
        if not np.all(np.isfinite(d) | (np.isnan(a) & np.isnan(b))) or np.nanmax(d) > 1e-9 * (1 + np.nanmax(np.abs(b))):
            rec.bad(key, f'{what}: differs by {np.nanmax(d)}')
            return False
    return True


# ------------------------------------------------------------------------------------------------------ calls
FLD = {0: lambda d: [lambda t, x: np.sin(2.1 * x + t) + x, lambda t, x, y: np.sin(2.1 * x + t) * (1 + y) + y * y,
                     lambda t, x, y, z: np.sin(2.1 * x + t) * (1 + y) + y * z][d - 1]}


def field(dim, k, s=1.0):
    if dim == 1:
        f = [lambda t, x: s * (np.sin(2.1 * x + t) + x)]
    elif dim == 2:
        f = [lambda t, x, y: s * (np.sin(2.1 * x + t) * (1 + y) + y * y), lambda t, x, y: s * (x * np.cos(y) - t * y)]
    else:
        f = [lambda t, x, y, z: s * (np.sin(2.1 * x + t) * (1 + y) + y * z), lambda t, x, y, z: s * (x * np.cos(y) - t * z),
             lambda t, x, y, z: s * (x * y * z + np.sin(z))]
    return ph.vc.scalar(f[0]) if k in (0, dim) else ph.vc.vector(*f)


class World:
    def __init__(self, desc, N):
        self.a = a = impl.make(desc, deg(N))
        self.dim = a.dim
        self.htt = a.kind == 'msehtt'
        self.names = sorted(a.forms)
        for j, n in enumerate(self.names):
            g = a.gm(n)
            m = a.ndofs(n)
            v = np.cos(np.arange(m) * 1.3 + j) + 0.1 * j
            a.put(n, {e: v[g[e]] for e in a.elems}, T)

    def calls(self):
        """name -> function giving the raw result"""
        a, dim = self.a, self.dim
        C = {}
        grids = [(G1,) * dim, (G2,) + (G1,) * (dim - 1), (G3,) * dim, (G3, G1, G3)[:dim]]
        tri = self.htt and any(a.triangle(e) for e in a.elems)
        for n in self.names:
            F = a.forms[n]
            k = int(n[-1])
            if k < dim:
                C[f'{n}:E'] = (lambda n=n: a.E(n))
                C[f'{n}:d'] = (lambda n=n, F=F: F[T].coboundary() if self.htt else F.coboundary[T].cochain.local)
            C[f'{n}:M'] = (lambda n=n, F=F: {e: F.space.mass_matrix(F.degree)[0][e] for e in a.elems} if self.htt else
                           {e: F.matrix.mass[e] for e in a.elems})
            C[f'{n}:gm'] = (lambda F=F: {e: F.cochain.gathering_matrix[e] for e in a.elems})
            C[f'{n}:cochain'] = (lambda F=F: {e: (F[T].cochain[e] if self.htt else F[T].cochain.local[e]) for e in a.elems})
            for i, g in enumerate(grids):
                if not tri:
                    C[f'{n}:RM{i}'] = (lambda F=F, g=g: (lambda rm: {e: [c[e] for c in rm] for e in a.elems})(F.reconstruction_matrix(*g)))
                if i in (0, 1, 3):
                    C[f'{n}:rec{i}'] = (lambda F=F, g=g: F[T].reconstruct(*g) if dim > 1 else F[T].reconstruct(*g))
            C[f'{n}:norm'] = (lambda F=F: F[T].norm())
            C[f'{n}:vec'] = (lambda F=F: (lambda v: {e: v[e] for e in a.elems})(F.cochain.static_vec(T)))
            C[f'{n}:reduced'] = (lambda n=n, k=k: self.reduced(n, k, 1.0))
            C[f'{n}:reduced2'] = (lambda n=n, k=k: self.reduced(n, k, -2.0))
            C[f'{n}:error'] = (lambda n=n, k=k: self.error(n, k))
            if self.htt:
                C[f'{n}:find'] = (lambda F=F: [sorted((int(e), int(i)) for e, i in
                                               F.cochain.gathering_matrix.find_rank_locations_of_global_dofs(d)[d]) for d in (0, 1)])
        for i, g in enumerate(grids):
            pts = [np.asarray(q) for q in flat(*g)]
            for q in ('mapping', 'Jacobian_matrix', 'Jacobian', 'metric', 'metric_matrix', 'inverse_Jacobian_matrix',
                      'inverse_Jacobian', 'inverse_metric_matrix'):
                C[f'ct:{q}{i}'] = (lambda q=q, pts=pts: {e: getattr(a.ct(e), q)(*pts) for e in a.elems})
        for i in range(len(self.names) - 1):
            n, m = self.names[i:i + 2]
            C[f'chain:{n}{m}'] = (lambda n=n, m=m: self.chain(n, m))
        return C

    def chain(self, n, m):
        f, g = self.a.forms[n].cochain.gathering_matrix, self.a.forms[m].cochain.gathering_matrix
        c = type(f)([f, g])
        return {e: c[e] for e in self.a.elems}

    def reduced(self, n, k, s):
        F, cf = self.a.forms[n], field(self.dim, k, s)
        if self.htt:
            F[0.2].reduce(cf[0.2])
            return {e: F[0.2].cochain[e] for e in self.a.elems}
        F.cf = cf
        F[0.2].reduce()
        return {e: F[0.2].cochain.local[e] for e in self.a.elems}

    def error(self, n, k):
        F, cf = self.a.forms[n], field(self.dim, k, 3.0)
        F.cf = cf
        return F[T].error()

    def values(self):
        return {n: value(f) for n, f in self.calls().items()}


NLBCS = [(), ((r'\Gamma_a', 'u'), (r'\Gamma_b', 'w'))]


class Prob:
    """a discrete problem of two equations coupled to a third one"""

    def __init__(self, desc, N, what, coef, bc):
        import random
        from checks import p12, p14
        self.what, self.N = what, N
        if what == 'nonlinear':
            bcs = NLBCS[bc]
            self.htt = 'domain' not in desc
            P = problems.build(desc, N, p14.coupled(bcs, self.htt), p14.SIDES)
            self.dyn = P.obj['nls'].apply()
            for s, k in bcs:
                fld = p14.UV if k == 'u' else p14.WV
                if self.htt:
                    P.obj['nls'].config(('essential bc', 1), place=P.sections[s], condition=fld, root_form=P.form[k])
                else:
                    self.dyn.bc.config(P.sections[s])(fld)
            self.names = ['k', 'ru', 'rw', 'rp', 'u', 'w', 'p']
        else:
            P = problems.build(desc, N, self.linear(what, coef, p12.SYS_BCS[bc]), {p12.GA: ['x-', 'y+'], p12.GB: None})
            self.htt = P.htt
            self.dyn = P.obj['ls'].apply()
            for s, w in p12.SYS_BCS[bc]:
                if self.htt:
                    P.obj['ls'].config(('essential bc', 1), place=P.sections[s], condition=p12.VC, root_form=P.form[w])
                else:
                    self.dyn.bc.config(P.sections[s], form=None)(p12.VC)
            self.names = ['f', 'g']
        self.P = P
        g = P.form[self.names[0]].cochain.gathering_matrix
        self.elems = list(g) if self.htt else list(range(g.num_elements))
        for t in (0.5, 1.5):
            for j, n in enumerate(self.names):
                self.put(n, t, lambda g: np.cos(g * 1.3 + j + t) + 0.1 * j)

    @staticmethod
    def linear(o, coef, bcs):
        def define(A, finite):
            L1, L2 = A.space(1, o), A.space(2, o)
            a, b, f, g = (L1.make_form(n, n) for n in 'abfg')
            p = L2.make_form('p', 'p')
            da = a.exterior_derivative()
            cb = b if coef == 1 else ph.constant_scalar(coef) * b
            pde = ph.pde(['a + cb = f', 'a - b = g', 'da + p = 0'], dict(a=a, b=b, cb=cb, f=f, g=g, p=p, da=da))
            pde.unknowns = [a, b, p]
            pde.bc.partition(r'\Gamma_a', r'\Gamma_b')
            sec = {}
            for s, w in bcs:
                sec.setdefault(s, []).append(ph.trace({'a': a, 'b': b}[w]))
            if sec:
                pde.bc.define_bc(sec)
            wf = pde.test_with([L1, L1, L2], sym_repr=['v', 'w', 'q'])
            finite()
            return dict(a=a, b=b, f=f, g=g, p=p, ls=wf.mp().ls())
        return define

    def put(self, n, t, fn):
        F = self.P.form[n]
        g = F.cochain.gathering_matrix
        v = {e: fn(np.asarray(g[e])) for e in self.elems}
        F[t].cochain = v if self.htt else np.array([v[e] for e in self.elems])

    def calls(self):
        C = {}
        for t in (0.5, 1.5):
            C[f's{t}'] = (lambda t=t: self.local(t))
            C[f'as{t}'] = (lambda t=t: self.assembled(t))
            C[f'x{t}'] = (lambda t=t: self.solve(t))
        return C

    def local(self, t):
        s = self.dyn(t)
        if self.what == 'nonlinear':
            return None
        return {e: (s.A[e], s.b[e]) for e in self.elems}

    def assembled(self, t):
        if self.what == 'nonlinear':
            return None
        a = self.dyn(t).assemble()
        return (a.A.M, a.b.V) if self.htt else (a.A._M, a.b._v)

    def solve(self, t):
        s = self.dyn(t)
        if self.what != 'nonlinear':
            als = s.assemble()
            return als.solve('direct')[0] if self.htt else als.solve()[0]
        for j, n in enumerate('uwp'):
            self.put(n, t, lambda g: 0.1 * np.cos(g * 1.3 + j))
        kw = dict(scheme='Newton') if self.htt else {}
        s.solve([self.P.form[k] for k in 'uwp'], maxiter=2, atol=1e-10, **kw)
        out = {n: {e: np.array(self.P.form[n][t].cochain[e] if self.htt else self.P.form[n][t].cochain.local[e]) for e in self.elems} for n in 'uwp'}
        return out


def make(w):
    return World(*w) if len(w) == 2 else Prob(*w)


def value(f):
    try:
        return canon(f())
    except Exception as e:
        return f'raises {type(e).__name__} {e}'


def fresh(task_world):
    """all values in a fresh process, each call in a process of its own"""
    def go(rc):
        W = make(task_world)
        out = {}
        for n, f in W.calls().items():
            out[n] = forked(lambda r, f=f: value(f))
        return out
    rc = Rec()
    v = forked(go, rc)
    assert v is not None, rc.viol
    return v


# ----------------------------------------------------------------------------------------------------- worlds
def worlds(task, rec, fam):
    ref = {}
    for i in range(len(fam)):
        ref[i] = fresh(fam[i])
        bad = [n for n, v in ref[i].items() if v is None]
        rec.ok(not bad, f'{task["family"]}:{i}:fresh', f'calls died: {bad}')
    n0 = rec

    def node(rc, i, seq, alive, depth):
        seq = seq + [i]
        key = f'{task["family"]}:{"-".join(map(str, seq))}'
        rc.state(task['family'], tuple(seq))
        rc.trace()
        W = make(fam[abs(i) - 1])
        raw = {}
        for n, f in W.calls().items():
            rc.step()
            try:
                raw[n] = f()
                v = canon(raw[n])
            except Exception as e:
                v = f'raises {type(e).__name__}'
            same(rc, v, ref[abs(i) - 1][n], f'{key}:{n}', f'{n} of the last of the worlds {seq}')
        for j, handed, V in alive:
            for n, (r, v) in handed.items():
                same(rc, canon(r), v, f'{key}:handed out {j}:{n}', f'{n} handed out by world {j} changed')
        keep = i > 0
        if keep:
            alive = alive + [(i, {n: (r, canon(r)) for n, r in raw.items()}, W)]
        del W, raw
        gc.collect()
        if depth:
            for j in range(1, len(fam) + 1):
                for s in (1, -1):
                    if s < 0 and depth == 1:
                        continue                # the last one: kept or dropped is the same
                    forked(node, rc, s * j, seq, alive, depth - 1)
    for i in task['first']:
        for s in (1, -1):
            forked(node, rec, s * (i + 1), [], [], task['depth'] - 1)
    rec.outcome('family ' + task['family'])


# ------------------------------------------------------------------------------------------------------ calls
def calls(task, rec, fam):
    w = fam[task['world']]
    key = f'{task["family"]}:{task["world"]}'
    ref = fresh(w)
    W = make(w)
    C = W.calls()
    rec.outcome('calls', )
    changes = changes_of(W)

    def after(rc, n, m, first):
        rc.step()
        v = value(C[m])
        same(rc, v, ref[m], f'{key}:{n}>{m}', f'{m} after {n}')
        if first is not None:
            same(rc, canon(first[0]), first[1], f'{key}:{n}>{m}:handed out', f'the result of {n} changed when {m} was called')
        same(rc, value(C[n]), ref[n], f'{key}:{n}>{m}>{n}', f'{n} again after {m}')

    def start(rc, n):
        rc.state(key, n)
        try:
            r = C[n]()
            first = (r, canon(r))
            v = first[1]
        except Exception as e:
            first, v = None, f'raises {type(e).__name__}'
        same(rc, v, ref[n], f'{key}:{n}', n)
        L = list(C)
        if not task['all']:        # all the others in the same process, in one of the two orders
            for m in L if L.index(n) % 2 else L[::-1]:
                rc.state(key, n, m)
                rc.trace()
                rc.step()
                same(rc, value(C[m]), ref[m], f'{key}:{n}>..>{m}', f'{m} after {n} and others')
                if first is not None:
                    same(rc, canon(first[0]), first[1], f'{key}:{n}>..>{m}:handed out', f'the result of {n} changed when {m} was called')
            same(rc, value(C[n]), ref[n], f'{key}:{n}>..>{n}', f'{n} again after all others')
        for m in C if task['all'] else ():
            rc.state(key, n, m)
            rc.trace()
            forked(after, rc, n, m, first)
        for i, (c, do) in enumerate(changes.items()):
            if not task['all'] and L.index(n) % 3 != i:
                continue
            rc.state(key, n, 'change', c)
            forked(changed, rc, n, c, do, first)

    def changed(rc, n, c, do, first):
        do(W)
        if first is not None:
            same(rc, canon(first[0]), first[1], f'{key}:{n}|{c}:handed out', f'the result of {n} changed when {c}')
        want = fresh_after(c)
        for m in C:
            same(rc, value(C[m]), want[m], f'{key}:{n}|{c}>{m}', f'{m} after {n} and {c}')

    memo = {}

    def fresh_after(c):
        if c not in memo:
            def go(rc):
                V = make(w)
                changes[c](V)
                D = V.calls()
                return {n: forked(lambda r, f=f: value(f)) for n, f in D.items()}
            raise KeyError(c)
        return memo[c]
    for c in changes:
        def go(rc, c=c):
            V = make(w)
            changes[c](V)
            D = V.calls()
            return {n: forked(lambda r, f=f: value(f)) for n, f in D.items()}
        memo[c] = forked(go, rec)
    for n in C:
        forked(start, rec, n)


def changes_of(W):
    """changes of the state of a world (as functions of the world)"""
    out = {}

    def overwrite(V):
        if isinstance(V, Prob):
            for n in V.names:
                V.put(n, 0.5, lambda g: np.sin(g * 0.7 + 1))
            return
        for n in V.names:
            g = V.a.gm(n)
            V.a.put(n, {e: np.sin(g[e] * 0.7 + 1) for e in V.a.elems}, T)

    def other_time(V):
        if isinstance(V, Prob):
            for n in V.names:
                V.put(n, 0.3, lambda g: np.sin(g * 0.7 + 1))
            return
        for n in V.names:
            g = V.a.gm(n)
            V.a.put(n, {e: np.sin(g[e] * 0.7 + 1) for e in V.a.elems}, 0.3)
    out['the coefficients are overwritten'] = overwrite
    out['another instant is set'] = other_time
    return out


# -------------------------------------------------------------------------------------------------- arguments
def arguments(task, rec, fam):
    """every array given to a call is changed in place afterwards"""
    desc, N = fam[task['world']]
    key = f'{task["family"]}:{task["world"]}:arguments'
    ref = fresh((desc, N))

    def scramble(x):
        if isinstance(x, dict):
            for y in list(x.values()):
                scramble(y)
            for k in list(x)[:1]:
                x[k] = x[k] + 7 if isinstance(x[k], np.ndarray) else x[k]
        elif isinstance(x, list):
            for i, y in enumerate(x):
                if isinstance(y, (list, dict, np.ndarray)):
                    scramble(y)
                else:
                    x[i] = 77
        elif isinstance(x, np.ndarray):
            x += 3.7

    # the description of the mesh and the degree
    def config(rc):
        import copy
        d, n = copy.deepcopy(desc), copy.deepcopy(N)
        given = []
        old = meshes.indicator

        def spy(q):
            r = old(q)
            given.append(r)
            return r
        meshes.indicator = spy
        W = World(d, n)
        meshes.indicator = old
        for v in W.calls().values():        # in half of the calls the caches have been filled before
            break
        for v in ('element_layout', 'bounds', 'layout'):
            scramble(d['kw'].get(v))
            scramble(d.get(v))
        scramble(n)
        for g in given:
            ind, kw = g
            for q in ([kw] + (list(ind) if isinstance(ind, tuple) else [ind])):
                if isinstance(q, (dict, list)):
                    for y in (q.values() if isinstance(q, dict) else q):
                        scramble(y) if isinstance(y, (list, dict, np.ndarray)) else None
        for m, f in W.calls().items():
            rc.step()
            same(rc, value(f), ref[m], f'{key}:configuration>{m}', f'{m} after the lists given to the configuration were changed')
    rec.state(key, 'configuration')
    rec.trace()
    forked(config, rec)

    # coefficients
    W = World(desc, N)
    a = W.a

    def coeff(rc, how):
        for j, n in enumerate(W.names):
            F = a.forms[n]
            g, m = a.gm(n), a.ndofs(n)
            v = np.cos(np.arange(m) * 1.3 + j) + 0.1 * j
            if how == 'array':
                arg = {e: v[g[e]] for e in a.elems} if W.htt else np.array([v[g[e]] for e in a.elems])
                F[T].cochain = arg
                scramble(arg)
            elif how == 'of another time':
                arg = {e: v[g[e]] for e in a.elems} if W.htt else np.array([v[g[e]] for e in a.elems])
                F[0.1].cochain = arg
                F[T].cochain = {e: F[0.1].cochain[e] for e in a.elems} if W.htt else F[0.1].cochain.local
                scramble(arg)
                F[0.1].cochain = {e: v[g[e]] * 3 for e in a.elems} if W.htt else np.array([v[g[e]] * 3 for e in a.elems])
            else:
                f = F[T]
                F[0.1].cochain = {e: v[g[e]] for e in a.elems} if W.htt else np.array([v[g[e]] for e in a.elems])
                c = F[0.1].cochain
                vec = c.gathered_global_vector() if callable(getattr(c, 'gathered_global_vector', None)) else c.gathered_global_vector
                F[T].cochain = vec
                vec.V[:] = 5.5
        for m, f in W.calls().items():
            rc.step()
            same(rc, value(f), ref[m], f'{key}:{how}>{m}', f'{m} after the coefficients given as {how} were changed by the caller')
    for how in ['array', 'of another time'] + (['gathered'] if W.htt else []):
        rec.state(key, how)
        rec.trace()
        forked(coeff, rec, how)

    # points
    def points(rc, name, fn, n):
        base = [G1 * 1.0] * n if name.startswith(('RM', 'rec')) else [q * 1.0 for q in flat(*[G1] * n)]
        base = [q.copy() for q in base]
        other = [np.sort(q * 0.5 + 0.2) if name.startswith(('RM', 'rec')) else q * 0.5 + 0.2 for q in base]
        w1, w2 = (forked(lambda r, b=b: value(lambda: fn(*[q.copy() for q in b]))) for b in (base, other))
        args = [q.copy() for q in base]
        same(rc, value(lambda: fn(*args)), w1, f'{key}:{name}', name)
        for q, b in zip(args, base):
            rc.ok(np.array_equal(q, b), f'{key}:{name}:argument', f'{name} changed its argument')
        for q, o in zip(args, other):
            q[:] = o
        same(rc, value(lambda: fn(*args)), w2, f'{key}:{name}:changed', f'{name} with the arrays of the first call, changed')
        same(rc, value(lambda: fn(*[q.copy() for q in base])), w1, f'{key}:{name}:again', f'{name} again with the first values')

    F = {}
    tri = W.htt and any(a.triangle(e) for e in a.elems)
    for n in W.names:
        f = a.forms[n]
        F[f'rec {n}'] = (lambda *g, f=f: f[T].reconstruct(*g))
        if not tri:
            F[f'RM {n}'] = (lambda *g, f=f: ((lambda rm: {e: [c[e] for c in rm] for e in a.elems})(f.reconstruction_matrix(*g))
                                             if W.htt else f.reconstruction_matrix(*g)))
    for q in ('mapping', 'Jacobian_matrix', 'Jacobian', 'metric', 'metric_matrix', 'inverse_Jacobian_matrix',
              'inverse_Jacobian', 'inverse_metric_matrix'):
        F['ct ' + q] = (lambda *p, q=q: {e: getattr(a.ct(e), q)(*p) for e in a.elems})
    for name, fn in F.items():
        rec.state(key, name)
        rec.trace()
        rec.step(3)
        forked(points, rec, name, fn, W.dim)
    rec.outcome('arguments')
