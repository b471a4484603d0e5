import boot          # noqa
import itertools
import numpy as np
import scipy.sparse as sp
import phyem as ph
import impl
import meshes
import mp
from meshes import M
from impl import dense

ID = 'P12'
LEVEL = 'model_checking'
RULE = ('explicit-state exploration of the matrix algebra: all sequences (up to the depth bound, up to commutation of unrelated '
        'operations) of products, sums, negations, scalings, transposes, inverses, block compositions, customisations of rows, '
        'reads and assemblies with every option, over mass, incidence, arbitrary, zero matrices and vectors on meshes whose '
        'elements share, partly share and do not share their matrices, for msehtt and msepy; a dense reference holds the value '
        'of every object; after each sequence every object, local and assembled, is compared twice, and so are the matrices the '
        'objects were made from. Linear systems: all sequences of customisations of the unknowns, of block products and of '
        'assemblies are compared with the dense system, and boundary conditions with the dense elimination')
ASSUMPTIONS = ['an object is customised before other objects are made from it, not after']

HTT = [M('u22', 'crazy', dict(element_layout=2, c=0.0, periodic=False)),
       M('mix', 'crazy', dict(element_layout=[[1, 1, 2], 1], c=0.0, periodic=False)),
       M('c22', 'crazy', dict(element_layout=[2, 1], c=0.1, periodic=False))]
PY = [mp.D('pu', 'crazy', [2, 2], c=0.0, periodic=False, bounds=[[0, 1], [0, 1]]),
      mp.D('pmix', 'crazy', [[1, 1, 2], 1], c=0.0, periodic=False, bounds=[[0, 1], [0, 1]]),
      mp.D('pc', 'crazy', [2, 1], c=0.1, periodic=False, bounds=[[0, 1], [0, 1]])]


def tasks(tier):
    L = []
    parts = 8
    for d in HTT + PY + (meshes.patches('quick')[8:9] if tier != 'quick' else []):
        for p in range(parts):
            depth = (3 if d['name'] in ('mix', 'pmix') else 2) if tier == 'quick' else (4 if d['name'] in ('mix', 'pmix') else 3)
            L.append(dict(kind='algebra', desc=d, N=1, depth=depth, part=p, parts=parts, tier=tier))
    for d in [HTT[0], HTT[1], PY[0], PY[1]]:
        for i in range(len(SYS_BCS)):
            for p in range(2):
                L.append(dict(kind='systems', desc=d, bcs=i, depth=2 if tier == 'quick' else 3, part=p, parts=2))
    return L


def run(task, rec):
    globals()[task['kind']](task, rec)


# ------------------------------------------------------------------------------- the two implementations

class World:
    """the real objects next to their dense values"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.obj = []
        for k in ctx.base:
            self.add(**ctx.make(k))

    def add(self, kind, typ, real, val, cus=False, lazy=False):
        self.obj.append(dict(kind=kind, typ=typ, real=real, val=val, over={}, cus=cus, used=False, lazy=lazy))
        return len(self.obj) - 1

    def value(self, i, e):
        o = self.obj[i]
        return o['over'][e] if e in o['over'] else o['val'](e)

    def assembled(self, i):
        c, o = self.ctx, self.obj[i]
        if o['kind'] == 'M':
            R, C = c.gmd(o['typ'][0]), c.gmd(o['typ'][1])
            A = np.zeros((c.nd(o['typ'][0]), c.nd(o['typ'][1])))
            for e in c.elems:
                np.add.at(A, np.ix_(R[e], C[e]), self.value(i, e))
            return A
        R = c.gmd(o['typ'])
        v = np.zeros(c.nd(o['typ']))
        for e in c.elems:
            np.add.at(v, R[e], self.value(i, e))
        return v


class Ctx:
    def __init__(self, desc, N, full):
        self.I = impl.make(desc, N)
        self.htt = self.I.kind == 'msehtt'
        self.elems = list(self.I.elems)
        F1, F2 = self.I.forms['outer1'], self.I.forms['outer2']
        self.G = {1: F1.cochain.gathering_matrix, 2: F2.cochain.gathering_matrix}
        self.dic = {k: {e: np.array(g[e]) for e in self.elems} for k, g in self.G.items()}
        self.n = {k: max(int(d.max()) for d in v.values()) + 1 for k, v in self.dic.items()}
        self.F1, self.F2 = F1, F2
        self.M1, self.E = self.I.M('outer1'), self.I.E('outer1')
        rng = np.random.default_rng(5)
        self.U = {e: rng.standard_normal(self.M1[e].shape) + 4 * np.eye(len(self.M1[e])) for e in self.elems}
        self.v = {e: rng.standard_normal(len(self.M1[e])) for e in self.elems}
        self.w = {e: rng.standard_normal(len(self.M1[e])) for e in self.elems}
        F1[0.25].cochain = {e: self.w[e].copy() for e in self.elems} if self.htt else np.array([self.w[e] for e in self.elems])
        self.base = ['mass', 'E', 'arb', 'v', 'cv'] + (['zero', 'hom'] if full else [])
        loc = {}
        for e in self.elems:
            for l, g in enumerate(self.dic[1][e]):
                loc.setdefault(int(g), []).append((e, l))
        self.loc = loc
        shared = [g for g in sorted(loc) if len(loc[g]) > 1]
        single = [g for g in sorted(loc) if len(loc[g]) == 1]
        self.dofs = [shared[0], single[0], -1] if shared else single[:2]

    def gmd(self, t):
        if isinstance(t, tuple):
            key = ('chain',) + t
            if key not in self.dic:
                g = self.chain(t)
                self.dic[key] = {e: np.array(g[e]) for e in self.elems}
                self.n[key] = sum(self.n[x] for x in t)
            return self.dic[key]
        return self.dic[t]

    def nd(self, t):
        self.gmd(t)
        return self.n[('chain',) + t] if isinstance(t, tuple) else self.n[t]

    def chain(self, t):
        if self.htt:
            from phyem.msehtt.tools.gathering_matrix import MseHttGatheringMatrix as GM
        else:
            from phyem.msepy.tools.gathering_matrix import RegularGatheringMatrix as GM
        return GM([self.G[x] for x in t])

    def cls(self):
        if self.htt:
            from phyem.msehtt.tools.matrix.static import local as lm
            from phyem.msehtt.tools.vector.static import local as lv
            return lm, lm.MseHttStaticLocalMatrix, lv, lv.MseHttStaticLocalVector
        from phyem.msepy.tools.matrix.static import local as lm
        from phyem.msepy.tools.vector.static import local as lv
        return lm, lm.MsePyStaticLocalMatrix, lv, lv.MsePyStaticLocalVector

    def make(self, k):
        lm, Mat, lv, Vec = self.cls()
        G = self.G
        if k == 'mass':
            if self.htt:
                m, ck = self.F1.space.mass_matrix(self.F1.degree)
                r = Mat(m, G[1], G[1], cache_key=ck)
            else:
                r = self.F1.matrix.mass
            return dict(kind='M', typ=(1, 1), real=r, val=lambda e: self.M1[e])
        if k == 'E':
            if self.htt:
                m, ck = self.F1.space.incidence_matrix(self.F1.degree)
                r = Mat(m, G[2], G[1], cache_key=ck)
            else:
                r = self.F1.matrix.incidence
            return dict(kind='M', typ=(2, 1), real=r, val=lambda e: self.E[e])
        if k == 'arb':
            return dict(kind='M', typ=(1, 1), real=Mat({e: sp.csr_matrix(self.U[e]) for e in self.elems}, G[1], G[1]),
                        val=lambda e: self.U[e])
        if k == 'zero':
            n = {e: len(self.dic[1][e]) for e in self.elems}
            kw = dict(cache_key='zero') if self.htt else {}
            return dict(kind='M', typ=(1, 1), real=Mat(0, G[1], G[1], **kw), val=lambda e: np.zeros((n[e], n[e])))
        if k == 'v':
            d = {e: self.v[e].copy() for e in self.elems} if self.htt else np.array([self.v[e] for e in self.elems])
            return dict(kind='V', typ=1, real=Vec(d, G[1]), val=lambda e: self.v[e])
        if k == 'cv':
            return dict(kind='V', typ=1, real=self.F1.cochain.static_vec(0.25), val=lambda e: self.w[e], lazy='cochain')
        if k == 'hom':
            return dict(kind='V', typ=1, real=Vec(1.5, G[1]), val=lambda e: 1.5 * np.ones(len(self.dic[1][e])))


# ------------------------------------------------------------------------------- operations

def ops(W, touched, depth):
    """all the operations possible now; after the first one only those which touch what was touched before"""
    c = W.ctx
    out = []
    Ms = [i for i, o in enumerate(W.obj) if o['kind'] == 'M' and not isinstance(o['typ'][0], tuple)]
    Vs = [i for i, o in enumerate(W.obj) if o['kind'] == 'V' and not isinstance(o['typ'], tuple)]
    Cs = [i for i, o in enumerate(W.obj) if o['kind'] == 'M' and isinstance(o['typ'][0], tuple)]
    CVs = [i for i, o in enumerate(W.obj) if o['kind'] == 'V' and isinstance(o['typ'], tuple)]
    for i in Ms + Cs:
        big = i in Cs
        r, k = W.obj[i]['typ']
        out += [('neg', i), ('T', i), ('scale', i, -0.5), ('scale', i, 1e-9), ('read', i), ('thr', i)] if not big \
            else [('neg', i), ('T', i), ('thr', i), ('read', i)]
        if r == k and not W.obj[i]['used']:
            dofs = c.dofs if not big else [0, -1, c.n[1]]
            for g in dofs:
                out.append(('idrow', i, g))
                if c.htt:
                    out.append(('zerorow', i, g))
                else:
                    out += [('setzero', i, g), ('iddiag', i, g)]
            if c.htt:
                out.append(('idlocal', i, c.elems[-1], 1))
            if W.obj[i]['over']:
                out.append(('clear', i))
        elif r != k and not big and not W.obj[i]['used']:
            out += [('zerorow' if c.htt else 'setzero', i, g) for g in (0, -1)]
            if W.obj[i]['over'] and c.htt:
                out.append(('clear', i))
    for i in Ms:
        if c.htt and W.obj[i]['typ'][0] == W.obj[i]['typ'][1] and i in (0, 2) \
                and not W.obj[i]['over']:
            out.append(('inv', i))
    for i, j in itertools.product(Ms, Ms):
        if W.obj[i]['typ'] == W.obj[j]['typ']:
            out.append(('add', i, j))
            if not c.htt:
                out.append(('sub', i, j))
        if W.obj[i]['typ'][1] == W.obj[j]['typ'][0]:
            out.append(('mm', i, j))
    for i, j in itertools.product(Ms, Vs):
        if W.obj[i]['typ'][1] == W.obj[j]['typ']:
            out.append(('mv', i, j))
    for i in Vs:
        if W.obj[i]['lazy'] != 'cochain':
            out += [('vneg', i), ('vscale', i, -0.25)]
        if not W.obj[i]['used'] and W.obj[i]['typ'] == 1:
            for g in c.dofs:
                out.append(('vset', i, g))
            out.append(('vsets', i))
            if c.htt:
                out.append(('vsetl', i, c.elems[-1], 0))
        for j in Vs:
            if W.obj[i]['typ'] == W.obj[j]['typ'] and W.obj[i]['lazy'] != 'cochain' and \
                    (c.htt or W.obj[j]['lazy'] != 'cochain'):
                out.append(('vadd', i, j))
                if c.htt:
                    out.append(('vsub', i, j))
    E = next((i for i in Ms if W.obj[i]['typ'] == (2, 1)), None)
    if E is not None and not Cs:
        for i in Ms:
            if W.obj[i]['typ'] == (1, 1) and 'T' not in [W.obj[i].get('how')]:
                out.append(('bmat', i, E))
                if c.htt and W.obj[E]['over']:
                    out.append(('bmat', i, E, 'own'))
    if not CVs:
        for i in Vs:
            if W.obj[i]['typ'] == 1:
                out.append(('concat', i))
    for i in CVs:
        if not W.obj[i]['used']:
            out += [('vset', i, 0), ('vset', i, -1), ('vset', i, c.n[1])]
    if touched:
        out = [o for o in out if any(x in touched for x in operands(o))]
    return out


def operands(op):
    if op[0] in ('add', 'sub', 'mm', 'mv', 'vadd', 'vsub', 'bmat'):
        return op[1:3]
    return (op[1],)


class Refused(Exception):
    pass


def apply(W, op, rec, key):
    c = W.ctx
    lm, Mat, lv, Vec = c.cls()
    o = W.obj
    name = op[0]
    for i in operands(op):
        if name not in ('read', 'thr', 'idrow', 'zerorow', 'setzero', 'iddiag', 'idlocal', 'clear', 'vset', 'vsets', 'vsetl'):
            o[i]['used'] = True
    a = op[1]
    A = o[a]
    va = lambda e: W.value(a, e)                 # noqa
    dep = any(o[i]['cus'] or o[i]['over'] for i in operands(op))
    lazy = 'callable' if any(o[i]['lazy'] == 'callable' for i in operands(op)) else False
    new = None
    if name == 'neg':
        new = dict(kind='M', typ=A['typ'], real=-A['real'], val=lambda e: -va(e))
    elif name == 'T':
        new = dict(kind='M', typ=A['typ'][::-1], real=A['real'].T, val=lambda e: va(e).T)
    elif name == 'inv':
        new = dict(kind='M', typ=A['typ'][::-1], real=A['real'].inv(), val=lambda e: np.linalg.inv(va(e)))
    elif name == 'scale':
        new = dict(kind='M', typ=A['typ'], real=op[2] * A['real'], val=lambda e: op[2] * va(e))
    elif name in ('add', 'sub'):
        b = op[2]
        s = 1 if name == 'add' else -1
        r = A['real'] + o[b]['real'] if s == 1 else A['real'] - o[b]['real']
        new = dict(kind='M', typ=A['typ'], real=r, val=lambda e: va(e) + s * W.value(b, e))
    elif name == 'mm':
        b = op[2]
        new = dict(kind='M', typ=(A['typ'][0], o[b]['typ'][1]), real=A['real'] @ o[b]['real'],
                   val=lambda e: va(e) @ W.value(b, e))
    elif name == 'mv':
        b = op[2]
        r = A['real'] @ o[b]['real']
        lz = 'callable' if (not c.htt and A['over']) else False
        new = dict(kind='V', typ=A['typ'][0], real=r, val=lambda e: va(e) @ W.value(b, e), lazy=lz)
    elif name == 'vneg':
        new = dict(kind='V', typ=A['typ'], real=-A['real'], val=lambda e: -va(e), lazy=lazy)
    elif name == 'vscale':
        new = dict(kind='V', typ=A['typ'], real=op[2] * A['real'], val=lambda e: op[2] * va(e), lazy=lazy)
    elif name in ('vadd', 'vsub'):
        b = op[2]
        s = 1 if name == 'vadd' else -1
        r = A['real'] + o[b]['real'] if s == 1 else A['real'] - o[b]['real']
        new = dict(kind='V', typ=A['typ'], real=r, val=lambda e: va(e) + s * W.value(b, e), lazy=lazy)
    elif name == 'bmat':
        b = op[2]
        # [[A, E^T], [E, 0]]
        own = len(op) > 3          # the transposed block is made of the matrix before it was customised
        Et = c.make('E')['real'].T if own else o[b]['real'].T
        n2 = {e: len(c.dic[2][e]) for e in c.elems}

        def val(e):
            Ee = W.value(b, e)
            return np.block([[va(e), (c.E[e] if own else Ee).T], [Ee, np.zeros((n2[e], n2[e]))]])
        new = dict(kind='M', typ=((1, 2), (1, 2)), real=lm.bmat([[A['real'], Et], [o[b]['real'], None]]), val=val)
    elif name == 'concat':
        n2 = {e: len(c.dic[2][e]) for e in c.elems}
        gms = [c.G[1], c.G[2]]
        new = dict(kind='V', typ=(1, 2), real=lv.concatenate([A['real'], None], gms if c.htt else c.chain((1, 2))),
                   val=lambda e: np.concatenate([va(e), np.zeros(n2[e])]), lazy='callable')
    elif name == 'read':
        for e in c.elems[::-1]:
            A['real'][e]
    elif name == 'thr':
        # dropping the small entries is for what is assembled, not for the matrix
        thr = 0.05
        if c.htt:
            got = dense(A['real'].assemble(threshold=thr).M)
            Rr, Cc = c.gmd(A['typ'][0]), c.gmd(A['typ'][1])
            want = np.zeros(got.shape)
            for e in c.elems:
                m = np.array(va(e))
                m[np.abs(m) < thr] = 0
                np.add.at(want, np.ix_(Rr[e], Cc[e]), m)
            rec.close(got, want, 1e-10, f'{key}:threshold', 'assembled with a threshold')
        else:
            A['real'].assemble(format='csr')
    elif name in ('idrow', 'iddiag'):
        g = op[2]
        before = W.assembled(a)
        loc_before = {e: np.array(W.value(a, e)) for e in c.elems}
        if name == 'idrow':
            A['real'].customize.identify_row(g)
        else:
            A['real'].customize.identify_diagonal([g if g >= 0 else g + before.shape[0]])
        want = before.copy()
        want[g] = 0
        want[g, g] = 1
        gg = g % before.shape[0]
        got = np.zeros(before.shape)
        R = c.gmd(A['typ'][0])
        for e in c.elems:
            m = dense(A['real'][e])
            np.add.at(got, np.ix_(R[e], R[e]), m)
            other = R[e] != gg
            rec.close(m[other], loc_before[e][other], 1e-12, f'{key}:otherrows', f'row {g} identified, other rows of element {e}')
            if gg in R[e]:
                A['over'][e] = m.copy()
        rec.close(got, want, 1e-12, f'{key}:identify', f'row {g} identified')
    elif name in ('zerorow', 'setzero'):
        g = op[2]
        if name == 'zerorow':
            A['real'].customize.zero_row(g)
        else:
            A['real'].customize.set_zero([g] if g >= 0 else [g + c.nd(A['typ'][0])])
        gg = g % c.nd(A['typ'][0])
        R = c.gmd(A['typ'][0])
        for e in c.elems:
            if gg in R[e]:
                m = np.array(W.value(a, e))
                m[R[e] == gg] = 0
                A['over'][e] = m
    elif name == 'idlocal':
        e, l = op[2:]
        A['real'].customize.identify_local_dof(e, l)
        m = np.array(W.value(a, e))
        m[l] = 0
        m[l, l] = 1
        A['over'][e] = m
    elif name == 'clear':
        A['real'].customize.clear()
        A['over'] = {}
    elif name == 'vset':
        g = op[2]
        before = W.assembled(a)
        A['real'].customize.set_value(g, 7.5)
        want = before.copy()
        want[g] = 7.5
        vset(W, a, want, g, rec, key)
    elif name == 'vsets':
        before = W.assembled(a)
        gs = [g % len(before) for g in c.dofs]
        A['real'].customize.set_values(gs, [3.0 + i for i in range(len(gs))])
        want = before.copy()
        for i, g in enumerate(gs):
            want[g] = 3.0 + i
        vset(W, a, want, None, rec, key)
    elif name == 'vsetl':
        e, l = op[2:]
        A['real'].customize.set_local_value(e, l, -2.0)
        v = np.array(W.value(a, e))
        v[l] = -2.0
        A['over'][e] = v
    if new is not None:
        return (W.add(cus=dep, **new),)
    return ()


def vset(W, a, want, g, rec, key):
    c, A = W.ctx, W.obj[a]
    R = c.gmd(A['typ'])
    got = np.zeros(len(want))
    for e in c.elems:
        v = np.array(A['real'][e], dtype=float)
        np.add.at(got, R[e], v)
        A['over'][e] = v
    rec.close(got, want, 1e-12, f'{key}:set', f'value of dof {g} set')


def compare(W, rec, key, who=None):
    c = W.ctx
    for i, o in enumerate(W.obj):
        if who is not None and i not in who:
            continue
        weak = not c.htt and (o['cus'] or o['lazy'] == 'callable')
        for rep in (0, 1):
            try:
                got = {e: (dense(o['real'][e]) if o['kind'] == 'M' else np.asarray(o['real'][e])) for e in c.elems}
            except AssertionError:
                if weak and o['kind'] == 'M':
                    rec.outcome('refused')       # msepy does not compute with customised matrices
                    break
                raise
            for e in c.elems:
                w = W.value(i, e)
                rec.close(got[e], w, 1e-9 * max(1, np.abs(w).max() if w.size else 1), f'{key}:obj{i}:local',
                          f'object {i}, element {e}, read {rep}')
        else:
            A = W.assembled(i)
            s = 1e-9 * max(1, np.abs(A).max() if A.size else 1)
            if o['kind'] == 'M':
                for f in ('csc', 'csr'):
                    r = o['real'].assemble(format=f)
                    rec.close(dense(r.M if c.htt else r._M), A, s, f'{key}:obj{i}:{f}', f'object {i} assembled {f}')
            elif c.htt:
                rec.close(o['real'].assemble().V, A, s, f'{key}:obj{i}:sum', f'object {i} assembled')
            else:
                rec.close(o['real'].assemble()._v, A, s, f'{key}:obj{i}:sum', f'object {i} assembled')
    # what the objects were made from is still what it was
    f = c.F1[0.25].cochain
    for e in c.elems:
        rec.close(np.asarray(f[e] if c.htt else f.local[e]), c.w[e], 0, f'{key}:cochain', f'cochain in element {e}')


def algebra(task, rec):
    c = Ctx(task['desc'], task['N'], True)
    count = [0]
    light = task['tier'] == 'quick'

    def visit(seq, depth):
        """run a sequence from scratch and go on with all its continuations"""
        W = World(c)
        touched = set()
        for op in seq:
            key = '/'.join(map(str, op))
            try:
                new = apply(W, op, rec, '+'.join(str(x[0]) for x in seq) + '@' + key)
            except (AssertionError, NotImplementedError):
                if not c.htt and any(W.obj[i]['cus'] or W.obj[i]['over'] or W.obj[i]['lazy'] == 'callable'
                                     for i in operands(op)):
                    rec.outcome('refused')        # msepy does not compute with customised matrices or callable vectors
                    return
                raise
            touched |= set(operands(op)) | set(new)
        rec.step(len(seq))
        rec.trace()
        rec.state(task['desc']['name'], seq)
        rec.outcome(seq[-1][0] if seq else 'none')
        nxt = ops(W, touched, len(seq)) if len(seq) < depth else []
        compare(W, rec, '+'.join('/'.join(map(str, x)) for x in seq), who=touched)
        if len(rec.samples) < 2 and len(seq) == depth:
            rec.sample(dict(mesh=task['desc']['name'], sequence=[list(map(str, x)) for x in seq]))
        if rec.nviol > 40:
            return
        for n, op in enumerate(nxt):
            if not seq:
                count[0] += 1
                if count[0] % task['parts'] != task['part']:
                    continue
            if light and len(seq) == 2 and not worth(seq, op):
                continue
            visit(seq + (op,), depth)

    visit((), task['depth'])
    # the matrices everything was made from
    M1, E = c.I.M('outer1'), c.I.E('outer1')
    for e in c.elems:
        rec.close(M1[e], c.M1[e], 0, 'mass matrix', 'the mass matrix has changed')
        rec.close(E[e], c.E[e], 0, 'incidence matrix', 'the incidence matrix has changed')


CUST = ('idrow', 'iddiag', 'zerorow', 'setzero', 'idlocal', 'thr', 'vset', 'vsets', 'vsetl', 'clear', 'read')


def worth(seq, op):
    """quick tier, third step: only after a customisation or a read, or itself one"""
    a, b, o = seq[0][0], seq[1][0], op[0]
    if a in CUST:
        return b in ('neg', 'T', 'scale', 'bmat', 'mv', 'vneg', 'vscale', 'concat', 'inv') or (b in CUST and o in ('neg', 'clear'))
    return b not in CUST and o in ('thr', 'bmat') or o in ('idrow', 'vset') and op[2] == -1


# ------------------------------------------------------------------------------- linear systems

GA, GB = r'\Gamma_a', r'\Gamma_b'
VC = ph.vc.vector(lambda t, x, y: 10 + t + x - y, lambda t, x, y: -5 + 2 * y + t)
FV = ph.vc.vector(lambda t, x, y: 1 + t + x, lambda t, x, y: 2 - t + y)
GV = ph.vc.vector(lambda t, x, y: 3 - y + t * x, lambda t, x, y: x + y)


def two_unknowns(bcs):
    """a + b = f, a - b = g, both unknowns, both test forms and the right sides in one space, and p coupled through d"""
    def define(A, finite):
        L1, L2 = A.space(1), A.space(2)
        a, b, f, g = (L1.make_form(n, n) for n in 'abfg')
        p = L2.make_form('p', 'p')
        da = a.exterior_derivative()
        pde = ph.pde(['a + b = f', 'a - b = g', 'da + p = 0'], dict(a=a, b=b, f=f, g=g, p=p, da=da))
        pde.unknowns = [a, b, p]
        pde.bc.partition(GA, GB)
        dic = {'a': a, 'b': b}
        sec = {}
        for s, w in bcs:
            sec.setdefault(s, []).append(ph.trace(dic[w]))
        if sec:
            pde.bc.define_bc(sec)
        wf = pde.test_with([L1, L1, L2], sym_repr=['v', 'w', 'q'])
        finite()
        return dict(a=a, b=b, f=f, g=g, p=p, ls=wf.mp().ls())
    return define


class System:
    """the system of a problem at a time next to its dense blocks"""

    def __init__(self, P, t):
        self.P, self.t = P, t
        self.s = P.dls(t)
        f = {k: P.form[k].cochain.gathering_matrix for k in ('a', 'b', 'p')}
        self.elems = P.elems
        self.gm = [{e: np.array(f[k][e]) for e in self.elems} for k in ('a', 'b', 'p')]
        self.n = [max(int(d.max()) for d in g.values()) + 1 for g in self.gm]
        M, E, W = P.M1, P.E, P.M2
        F, G = P.coch('f', t), P.coch('g', t)
        z = np.zeros
        self.A, self.b = {}, {}
        for e in self.elems:
            n1, n2 = len(self.gm[0][e]), len(self.gm[2][e])
            self.A[e] = np.block([[M[e], M[e], z((n1, n2))], [M[e], -M[e], z((n1, n2))],
                                  [W[e] @ E[e], z((n2, n1)), W[e]]])
            self.b[e] = np.concatenate([M[e] @ F[e], M[e] @ G[e], z(n2)])
        self.split = {e: np.cumsum([0] + [len(g[e]) for g in self.gm]) for e in self.elems}
        self.N = sum(self.n)

    def real_gm(self):
        g = self.s.A._mA._gm_row if self.P.htt else self.s.A._mA._gm0_row
        return {e: np.array(g[e]) for e in self.elems}

    def local(self):
        s = self.s
        return {e: dense(s.A[e]) for e in self.elems}, {e: np.asarray(s.b[e], dtype=float) for e in self.elems}

    def assemble_dense(self, A, b, G):
        D, v = np.zeros((self.N, self.N)), np.zeros(self.N)
        for e in self.elems:
            np.add.at(D, np.ix_(G[e], G[e]), A[e])
            np.add.at(v, G[e], b[e])
        return D, v


def make_problem(desc, N, bcs):
    import problems
    P = problems.build(desc, N, two_unknowns(bcs), {GA: ['x-', 'y+'], GB: None})
    htt = P.htt
    P.dls = P.obj['ls'].apply()
    secs = {}
    for s, w in bcs:
        if htt:
            P.obj['ls'].config(('essential bc', 1), place=P.sections[s], condition=VC, root_form=P.form[w])
        else:
            P.dls.bc.config(P.sections[s], form=ph.trace(P.things[w]) if len([x for x in bcs if x[0] == s]) > 1 else None)(VC)
    F1, F2 = P.form['a'], P.form['p']
    if htt:
        P.elems = [e for e in F1.cochain.gathering_matrix]
        m1, m2, e1 = F1.space.mass_matrix(1)[0], F2.space.mass_matrix(1)[0], F1.space.incidence_matrix(1)[0]
    else:
        P.elems = list(range(F1.cochain.gathering_matrix.num_elements))
        m1, m2, e1 = F1.matrix.mass, F2.matrix.mass, F1.matrix.incidence
    P.M1, P.M2, P.E = ({e: dense(m[e]) for e in P.elems} for m in (m1, m2, e1))
    P.form['f'].cf, P.form['g'].cf = FV, GV
    for t in TIMES:
        P.form['f'][t].reduce()
        P.form['g'][t].reduce()

    def coch(k, t):
        c = P.form[k][t].cochain
        return {e: np.asarray(c[e] if htt else c.local[e]) for e in P.elems}
    P.coch = coch
    return P


TIMES = (0.0, 1.5)
SYS_BCS = [(), ((GA, 'a'),), ((GA, 'b'),), ((GA, 'a'), (GB, 'b')), ((GA, 'a'), (GB, 'a')), ((GA, 'a'), (GA, 'b'))]


def boundary_dofs(P, sides):
    """global dofs of a 1-form on the sides of the unit square, from the values of the reductions of fields which do not vanish
    there only: a dof is on a side when the flux of the field which is 0 on all other edges parallel to it is not 0"""
    F = P.form['a']
    out = set()
    for sd in sides:
        ax, end = 'xy'.index(sd[0]), (0.0 if sd[1] == '-' else 1.0)
        # a field which is 1 on the line and 0 on all other lines of the mesh (of spacing 1/2 or 1/4, 1/4, 1/2)
        if ax == 0:
            fld = (ph.vc.vector(lambda t, x, y: 1. * (np.abs(x) < 1e-9), lambda t, x, y: 0 * x) if end == 0 else
                   ph.vc.vector(lambda t, x, y: 1. * (np.abs(x - 1) < 1e-9), lambda t, x, y: 0 * x))
        else:
            fld = (ph.vc.vector(lambda t, x, y: 0 * x, lambda t, x, y: 1. * (np.abs(y) < 1e-9)) if end == 0 else
                   ph.vc.vector(lambda t, x, y: 0 * x, lambda t, x, y: 1. * (np.abs(y - 1) < 1e-9)))
        loc = reduce_local(P, F, fld, 0.0)
        g = F.cochain.gathering_matrix
        for e in P.elems:
            out |= {int(d) for d, v in zip(np.array(g[e]), loc[e]) if abs(v) > 1e-12}
    return sorted(out)


def reduce_local(P, F, fld, t):
    r = F.reduce(fld @ t) if P.htt else F.reduce(t, update_cochain=False, target=fld)
    return {e: np.asarray(r[e]) for e in P.elems}


def systems(task, rec):
    bcs = SYS_BCS[task['bcs']]
    P = make_problem(task['desc'], 1, bcs)
    nm = f"{task['desc']['name']}:bc{task['bcs']}"
    all_ = boundary_dofs(P, ['x-', 'x+', 'y-', 'y+'])
    on = {GA: boundary_dofs(P, ['x-', 'y+']), GB: boundary_dofs(P, ['x+', 'y-'])}
    rec.ok(len(on[GA]) + len(on[GB]) == len(all_), f'{nm}:boundary', 'sections do not partition the boundary')

    def fresh(t):
        S = System(P, t)
        # the real numbering of the whole system
        G = S.real_gm()
        allg = sorted({int(x) for g in G.values() for x in g})
        rec.ok(allg == list(range(S.N)), f'{nm}:numbering', 'numbering of the system is not contiguous')
        mp_ = [{} for _ in range(3)]
        good = True
        for e in S.elems:
            for k in range(3):
                for l, g in enumerate(S.gm[k][e]):
                    G_ = int(G[e][S.split[e][k] + l])
                    good &= mp_[k].setdefault(int(g), G_) == G_
        rec.ok(good, f'{nm}:numbering', 'the numbering of the system does not follow those of the unknowns')
        S.G, S.map = G, mp_
        D, v = S.assemble_dense(S.A, S.b, G)
        for s, w in bcs:
            k = 'abp'.index(w)
            val = {}
            loc = reduce_local(P, P.form[w], VC, t)
            for e in S.elems:
                for g, x in zip(S.gm[k][e], loc[e]):
                    val[int(g)] = x
            for g in on[s]:
                r = mp_[k][g]
                D[r] = 0
                D[r, r] = 1
                v[r] = val[g]
        S.D, S.v = D, v
        S.la, S.lb = S.local()
        check(S, f'{nm}:t{t}', 'system with boundary conditions')
        rec.outcome('system')
        return S

    def check(S, key, what):
        s = 1e-10 * max(1, np.abs(S.D).max(), np.abs(S.v).max())
        a, b = S.local()
        D, v = S.assemble_dense(a, b, S.G)
        rec.close(D, S.D, s, key + ':A', what + ' (A from the local matrices)')
        rec.close(v, S.v, s, key + ':b', what + ' (b from the local vectors)')
        als = S.s.assemble()
        rec.close(dense(als.A.M if P.htt else als.A._M), S.D, s, key + ':assA', what + ' (assembled A)')
        rec.close(als.b.V if P.htt else als.b._v, S.v, s, key + ':assb', what + ' (assembled b)')
        return als

    shared = {}
    for e in P.elems:
        for l, g in enumerate(np.array(P.form['a'].cochain.gathering_matrix[e])):
            shared.setdefault(int(g), []).append((e, l))
    sh = next(g for g in sorted(shared) if len(shared[g]) > 1)
    eL = P.elems[-1]

    def ops_(S):
        L = [('dof', S.map[0][sh]), ('dof', -1), ('dof', S.map[1][0]), ('ldof', 1, eL, 2), ('ldof', 0, shared[sh][1][0], shared[sh][1][1]),
             ('x',), ('again',)]
        if P.htt:
            L += [('edof', eL, 1), ('edof', shared[sh][0][0], shared[sh][0][1]), ('jac',), ('end', 0, sh), ('end', 2, 0), ('thr',),
                  ('solveloc',)]
        else:
            L += [('ijk', eL, 0, 1), ('ijk', 0, -1, 0), ('ijk', -1, 0, 2), ('solve',)]
        return L

    def pin(S, r, v):
        S.D[r] = 0
        S.D[r, r] = 1
        S.v[r] = v

    def act(S, op, key):
        k = op[0]
        rec.outcome(k)
        if k == 'dof':
            S.s.customize.set_dof(op[1] if op[1] >= 0 or P.htt else op[1] + S.N, 7.25)
            pin(S, op[1], 7.25)
        elif k == 'ldof':
            S.s.customize.set_local_dof(op[1], op[2], op[3], -3.5)
            pin(S, S.map[op[1]][int(S.gm[op[1]][op[2]][op[3]])], -3.5)
        elif k == 'ijk':
            i, j, kk = op[1:]
            S.s.customize.set_local_dof_ij_of_unknown_k_to_value(i, j, kk, 2.25)
            e = S.elems[i]
            pin(S, S.map[kk][int(S.gm[kk][e][j])], 2.25)
        elif k == 'edof':
            e, l = op[1:]
            a, b = S.local()
            S.s.customize.set_element_only_local_dof(e, l, 1.75)
            a[e][l] = 0
            a[e][l, l] = 1
            b[e][l] = 1.75
            a1, b1 = S.local()
            for i in S.elems:
                rec.close(a1[i], a[i], 1e-12, key + ':localA', f'element {i} after a local dof was set in element {e}')
                rec.close(b1[i], b[i], 1e-12, key + ':localb', f'element {i} after a local dof was set in element {e}')
            S.D, S.v = S.assemble_dense(a, b, S.G)
        elif k == 'jac':
            als = S.s.assemble(preconditioner='Jacobian')
            A, b = dense(als.A.M), als.b.V
            r = np.array([A[i] @ S.D[i] / (S.D[i] @ S.D[i]) for i in range(S.N) if np.any(S.D[i])])
            rows = [i for i in range(S.N) if np.any(S.D[i])]
            rec.ok(np.all(np.abs(r) > 0), key + ':jac', 'preconditioning removed a row')
            rec.close(A[rows], r[:, None] * S.D[rows], 1e-9, key + ':jacA', 'preconditioned A is not A with scaled rows')
            rec.close(b[rows], r * S.v[rows], 1e-9 * max(1, np.abs(S.v).max()), key + ':jacb', 'b is not scaled like A')
        elif k == 'end':
            i, g = op[1:]
            als = S.s.assemble(customizations=[dict(A=('new_EndZeroRowCol_with_a_one_for_global_dof', i, g),
                                                    b=('add_a_value_at_the_end', 0))])
            A, b = dense(als.A.M), als.b.V
            W = np.zeros((S.N + 1, S.N + 1))
            W[:-1, :-1] = S.D
            W[-1, S.map[i][g]] = 1
            # the column of the new unknown (a multiplier) mirrors the new row or is empty
            col = A[:-1, -1].copy()
            W[:-1, -1] = col
            rec.close(A, W, 1e-10, key + ':endA', 'system with a row at the end')
            rec.ok(not np.any(col) or np.allclose(col, W[-1, :-1]), key + ':endcol', 'column at the end')
            rec.close(b, np.append(S.v, 0), 1e-10 * max(1, np.abs(S.v).max()), key + ':endb', 'right side with a value at the end')
        elif k == 'thr':
            S.s.assemble(threshold=0.2)
        elif k == 'x':
            x = np.arange(S.N) + 0.5
            S.s.x.update(x)
            for kk, w in enumerate('abp'):
                c = P.form[w][S.t].cochain
                for e in S.elems:
                    got = np.asarray(c[e] if P.htt else c.local[e])
                    want = x[[S.map[kk][int(g)] for g in S.gm[kk][e]]]
                    rec.close(got, want, 0, key + ':x', f'unknown {w} after the update with the solution')
        elif k == 'solveloc':
            a, b = S.local()
            if all(np.linalg.matrix_rank(a[e]) == len(a[e]) for e in S.elems):
                x = S.s.solve('spsolve')[0]
                for e in S.elems:
                    rec.close(x[e], np.linalg.solve(a[e], b[e]), 1e-8 * max(1, np.abs(x[e]).max()), key + ':solveloc', 'local solve')
                S.s.x.update(x)
                for kk, w in enumerate('abp'):
                    c = P.form[w][S.t].cochain
                    for e in S.elems:
                        rec.close(np.asarray(c[e]), x[e][S.split[e][kk]:S.split[e][kk + 1]], 0, key + ':xloc', 'update with local solutions')
        elif k == 'solve':
            if np.linalg.matrix_rank(S.D) == S.N:
                x = S.s.assemble().solve()[0]
                rec.close(x, np.linalg.solve(S.D, S.v), 1e-8 * max(1, np.abs(x).max()), key + ':solve', 'solution')
        elif k == 'again':
            # a new system for the other time, then back
            fresh(TIMES[1] if S.t == TIMES[0] else TIMES[0])

    depth = task['depth']
    first = ops_(fresh(TIMES[0]))
    cnt = 0
    for n in range(depth + 1):
        for seq in itertools.product(range(len(first)), repeat=n):
            cnt += 1
            if cnt % task['parts'] != task['part']:
                continue
            S = fresh(TIMES[len(seq) % 2])
            names = [first[i] for i in seq]
            for op in names:
                act(S, op, f'{nm}:' + '+'.join('/'.join(map(str, o)) for o in names))
            check(S, f'{nm}:' + '+'.join('/'.join(map(str, o)) for o in names), 'system after ' + str(names))
            rec.state(nm, names)
            rec.step(len(names) + 1)
            rec.trace()
            if rec.nviol > 30:
                return
            if len(rec.samples) < 1 and n == depth:
                rec.sample(dict(system=nm, customisations=[list(map(str, o)) for o in names]))
