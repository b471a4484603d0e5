import boot          # noqa
import itertools
import numpy as np
import phyem as ph
import meshes
import mp
import problems
import zoo
from meshes import M
from impl import dense, flat

ID = 'P14'
LEVEL = 'model_checking'
RULE = ('all the terms of three forms which the library lets a user write (all spaces, products, pairings, patterns, sets of known '
        'factors, both sides of the equation, both signs, with a factor), in both implementations, on meshes whose elements share, '
        'partly share and do not share their geometry: the system made from the formulation is compared block by block with the '
        'integral of the reconstructed fields (array with two known factors, matrix with one, nonlinear operator with none: value '
        'at given cochains and exact derivative through one Newton step); and all runs of the nonlinear solvers of coupled '
        'systems, over schemes, first guesses, numbers of iterations, tolerances and boundary conditions, against the same '
        'iteration done with dense matrices and the integrals')
TIMEOUT = {'quick': 400, 'thorough': 3000}
T = 0.5
TOL = 1e-10

HTT = [M('mix', 'crazy', dict(element_layout=[[1, 1, 2], 1], c=0.0, periodic=False)),
       M('c21', 'crazy', dict(element_layout=[2, 1], c=0.1, periodic=False))]
PY = [mp.D('pmix', 'crazy', [[1, 1, 2], 1], c=0.0, periodic=False, bounds=[[0, 1], [0, 1]]),
      mp.D('pc21', 'crazy', [2, 1], c=0.1, periodic=False, bounds=[[0, 1], [0, 1]])]
SKEW = [meshes.tqr('skew', [['a', 'b', 'c', 'd'], ['c', 'e', 'f', 'd']],
                   dict(a=[0, 0], b=[1.1, .1], c=[.9, 1.2], d=[-.1, .8], e=[.8, 2.1], f=[0., 1.9]))]
HTT3 = [M('h3', 'crazy', dict(element_layout=[[1, 2], 1, 1], c=0.0, periodic=False), dim=3),
        M('h3c', 'crazy', dict(element_layout=[1, 1, 2], c=0.1, periodic=False), dim=3)]
PY3 = [mp.D('p3', 'crazy', [[1, 2], 1, 1], dim=3, c=0.0, periodic=False, bounds=[[0, 1]] * 3),
       mp.D('p3c', 'crazy', [1, 1, 2], dim=3, c=0.1, periodic=False, bounds=[[0, 1]] * 3)]


def bent(d):
    """elements whose coordinate transformation is not affine"""
    return bool(d['kw'].get('c')) or d in SKEW


def names(dim):
    return [f'{o}{k}' for o in 'io' for k in range(dim + 1)]


def ncomp(dim, s):
    return 1 if s[1] in f'0{dim}' else dim


def tasks(tier):
    L = []
    for dim, H, P, NH in ((2, HTT + SKEW, PY, [1, 2]), (3, HTT3, PY3, [1])):
        trip = list(itertools.product(names(dim), repeat=3))
        for d in H + P:
            for N in NH if tier != 'quick' or dim == 3 else [1 if d['name'] in ('c21', 'pc21') else 2]:
                for t in trip:
                    L.append((d, N, t))
    # a handful of triples in one process keeps the number of processes low and lets them meet in the caches
    out = []
    for key, g in itertools.groupby(L, key=lambda x: (x[0]['name'], x[1])):
        g = list(g)
        k = 3
        for i in range(0, len(g), k):
            out.append(dict(kind='terms', desc=g[0][0], N=g[0][1], triples=[x[2] for x in g[i:i + k]]))
        if key[0] in (HTT[0]['name'], PY[0]['name']) or tier != 'quick' and key[1] == 1:
            for i in range(0, len(g), 12):
                out.append(dict(kind='instants', desc=g[0][0], N=1, triples=[x[2] for x in g[i:i + 12]]))
    for d in HTT + SKEW + PY:
        out.append(dict(kind='logs', desc=d, N=2))
    for d in PY + HTT[:1] + PY3[:1]:
        out += [dict(kind='four', desc=d, N=n) for n in ((1, 2) if d['dim'] == 2 else (1,))]
    for d in SOLVE_HTT + SOLVE_PY:
        for b in range(len(BCS)):
            out += [dict(kind='solver', desc=d, N=n, bcs=b) for n in ((1, 2) if tier != 'quick' else (1,))]
    return out


def run(task, rec):
    globals()[task['kind']](task, rec)


# ------------------------------------------------------------------------------- the fields

class Fields:
    """the reconstructed fields of forms at quadrature points, and integrals of their products"""

    def __init__(self, P, n):
        self.P = P
        self.dim = P.dim
        self.x1, w = np.polynomial.legendre.leggauss(n)
        self.grid = [self.x1] * P.dim
        W = w
        for _ in range(P.dim - 1):
            W = np.multiply.outer(W, w)
        self.w = W.ravel('F')
        self.q = flat(*self.grid)
        self.cache = {}
        self.n = n
        # derivative of a polynomial from its values at the nodes
        x = self.x1
        c = np.array([np.prod([x[i] - x[j] for j in range(n) if j != i]) for i in range(n)])
        D = np.array([[c[i] / c[j] / (x[i] - x[j]) if i != j else 0 for j in range(n)] for i in range(n)])
        self.D = D - np.diag(D.sum(1))

    def gm(self, f):
        k = ('gm', id(f))
        if k not in self.cache:
            g = f.cochain.gathering_matrix
            self.cache[k] = (f, {e: np.array(g[e]) for e in self.elements})
        return self.cache[k][1]

    @property
    def elements(self):
        if 'elements' not in self.cache:
            f = next(iter(self.P.form.values()))
            self.cache['elements'] = list(self.P.mesh.composition) if self.P.htt else list(range(len(self.P.mesh.elements)))
        return self.cache['elements']

    def basis(self, f, s, d=False):
        """{element: [component: (points x dofs)]} of f or of d f"""
        key = (s, d)
        if key in self.cache:
            return self.cache[key]
        rm = f.reconstruction_matrix(*self.grid)
        out = {}
        for e in self.elements:
            out[e] = [dense(rm[e][c]) if e in rm and not hasattr(rm[0], 'keys') else dense(rm[c][e]) for c in range(len(rm))] \
                if self.P.htt else [dense(c) for c in rm[e]]
        self.cache[key] = out
        return out

    def jac(self, e):
        k = ('J', e)
        if k not in self.cache:
            el = self.P.tgm.elements[e] if self.P.htt else self.P.mesh.elements[e]
            self.cache[k] = np.abs(np.asarray(el.ct.Jacobian(*self.q))) * np.ones(len(self.w))
        return self.cache[k]

    def inverse(self, e):
        """d(reference)/d(physical) at the points: [r][x]"""
        k = ('I', e)
        if k not in self.cache:
            el = self.P.tgm.elements[e] if self.P.htt else self.P.mesh.elements[e]
            jm = el.ct.Jacobian_matrix(*self.q)
            J = np.array([[np.ones(len(self.w)) * c for c in r] for r in jm])
            self.cache[k] = np.moveaxis(np.linalg.inv(np.moveaxis(J, 2, 0)), 0, 2)
        return self.cache[k]

    def gradient(self, e, B):
        """[component][x]: values at the points (x dofs) of the derivatives of the fields"""
        inv = self.inverse(e)
        out = []
        for b in B:
            dr = [self.reference(b, a) for a in range(self.dim)]
            out.append([sum(dr[r] * inv[r][x][:, None] for r in range(self.dim)) for x in range(self.dim)])
        return out

    def reference(self, b, a):
        """the derivative to the reference coordinate a"""
        v = b.reshape([self.n] * self.dim + [-1], order='F')
        return np.moveaxis(np.tensordot(self.D, np.moveaxis(v, a, 0), (1, 0)), 0, a).reshape(b.shape, order='F')


def tensor(Fi, e, ba, bb, bc, op, kind, pat):
    """T[i, j, k] = the integral of the term over the element e for basis functions of A, B (or d B), C (or d C)"""
    w = Fi.w * Fi.jac(e)
    a = [x[:, :, None, None] for x in ba]
    b = [x[:, None, :, None] for x in bb]
    c = [x[:, None, None, :] for x in bc]
    if op == 'conv':
        g = Fi.gradient(e, bb)
        v = [sum(a[x] * g[k][x][:, None, :, None] for x in range(Fi.dim)) for k in range(len(bb))]
        r = sum(x * y for x, y in zip(v, c))
    elif pat == 'A|BC':
        v = zoo.multi(b, c) if op == 'm' else zoo.in_space(zoo.cross(b, c), len(a))
        r = sum(x * y for x, y in zip(a, v))
    else:
        v = zoo.multi(a, b) if op == 'm' else zoo.in_space(zoo.cross(a, b), len(c))
        r = sum(x * y for x, y in zip(v, c))
    r = r * np.ones((len(w), ba[0].shape[1], bb[0].shape[1], bc[0].shape[1]))
    return np.einsum('q,qijk->ijk', w, r)


# ------------------------------------------------------------------------------- one term

def possible(dim, c):
    """terms whose product has a meaning for the numbers of components; the library does not look"""
    sa, sb, sc, op, kind, pat = c
    na, nb, nc = (ncomp(dim, s) for s in (sa, sb, sc))

    def d(s):
        return ncomp(dim, s[0] + str(int(s[1]) + 1)) if int(s[1]) < dim else None
    if 'dB' in pat:
        nb = d(sb)
    if pat.endswith('dC'):
        nc = d(sc)
    if nb is None or nc is None:
        return False
    if op == 'm':
        x, y, z = (nb, nc, na) if pat == 'A|BC' else (na, nb, nc)
        return {x, y} == {1} and z == 1 or {x, y} == {1, dim} and z == dim or (x, y, z) == (dim, dim, 1)
    return True


REFUSE = (NotImplementedError, AssertionError)


def terms(task, rec):
    d, N = task['desc'], task['N']
    dim = d['dim']
    made = []

    def define(A, finite):
        SP = zoo.spaces(A)
        things = {}
        n = 0
        for trip in task['triples']:
            F = {}
            tag = ','.join(trip)
            for r, s in zip('ABc', trip):
                F[r + s] = SP[s].make_form(rf'{r}^{{{tag}}}', f'{r} of {tag}')
            F['d' + trip[2]] = SP[trip[2]].make_form(rf'd^{{{tag}}}', f'd of {tag}')
            F['gA' + trip[0]] = SP[trip[0]].make_form(rf'gA^{{{tag}}}', f'gA of {tag}')
            F['gB' + trip[1]] = SP[trip[1]].make_form(rf'gB^{{{tag}}}', f'gB of {tag}')
            got = False
            for c in list(zoo.candidates(A, SP, [trip])):
                if not possible(dim, c):
                    rec.outcome('no meaning')
                    continue
                for k in zoo.KNOWN:
                    for side, sign, fac in [('left', '+', None), ('right', '-', 0.75)] if k != '' else [('left', '+', None), ('left', '-', 0.75)]:
                        if k == 'AB':
                            side = 'right'
                        n += 1
                        t = c + (k,)
                        rec.state(d['name'], N, zoo.label(t), side, sign)
                        try:
                            U, kind, o = zoo.system(SP, F, t, n, side, sign, finite, fac)
                        except Exception as e:
                            rec.outcome('refused: formulation')
                            continue
                        things[f's{n}'] = o
                        made.append((f's{n}', t, side, sign, fac, U, kind))
                        got = True
            if got:
                things.update({f'{k}:{tag}': v for k, v in F.items()})
        finite()
        return things
    P = problems.build(d, N, define)
    if not made:
        return
    # on straight meshes everything is integrated exactly; on curved ones the library uses Gauss quadrature of degree int(1.5 N) + 1
    curved = bent(d)
    Fi = Fields(P, 6 if not curved else int(1.5 * N) + 2)
    rng = np.random.default_rng(3)
    vals, coch = {}, {}
    gmc = {}
    for k, f in P.form.items():
        n = max(int(g.max()) for g in Fi.gm(f).values()) + 1
        vals[k] = rng.standard_normal(n)
        gmc[k] = n

    def put():
        for k, f in P.form.items():
            v = {e: vals[k][Fi.gm(f)[e]] for e in Fi.elements}
            coch[k] = v
            f[T].cochain = v if P.htt else np.array([v[e] for e in Fi.elements])
    put()
    tens = {}
    seen = {}
    for name, t, side, sign, fac, U, kind in made:
        tag = ','.join(t[:3])
        f = {x: P.form[f'{x}{s}:{tag}'] for x, s in (('A', t[0]), ('B', t[1]), ('c', t[2]))}
        key = f"{d['name']}:N{N}:{zoo.label(t)}:{side}{sign}{'f' if fac else ''}"
        rec.trace()
        try:
            dyn = P.obj[name].apply()
            s = dyn(T)
        except REFUSE as e:
            rec.outcome('refused: implementation')
            continue
        except Exception as e:
            rec.bad(key + ':raise', repr(e))
            continue
        tk = t[:6]
        if tk not in tens:
            tens[tk] = reference(Fi, f, t)
        Tn = {e: (fac or 1) * (1 if sign == '+' else -1) * (1 if side == 'left' else -1) * tens[tk][e] for e in Fi.elements}
        rec.step()
        rec.outcome(kind + ' of ' + t[3])
        B = Blocks(P, Fi, f, U, tag, t, vals)
        B.decide(rec, key, s, kind, Tn, t[6], put)


INSTANTS = {'k-1': 0., 'k-1/2': .5, 'k': 1.}


def instants(task, rec):
    """all forms at abstract instants: each one is taken at its own"""
    d, N = task['desc'], task['N']
    made = []
    ts = None

    def define(A, finite):
        nonlocal ts
        SP = zoo.spaces(A)
        ts = ph.time_sequence()
        things = {}
        n = 0
        for trip in task['triples']:
            F = {}
            tag = ','.join(trip)
            for r, s in zip('ABc', trip):
                F[r + s] = SP[s].make_form(rf'{r}^{{{tag}}}', f'{r} of {tag}')
            F['d' + trip[2]] = SP[trip[2]].make_form(rf'd^{{{tag}}}', f'd of {tag}')
            F['gA' + trip[0]] = SP[trip[0]].make_form(rf'gA^{{{tag}}}', f'gA of {tag}')
            F['gB' + trip[1]] = SP[trip[1]].make_form(rf'gB^{{{tag}}}', f'gB of {tag}')
            got = False
            for c in list(zoo.candidates(A, SP, [trip])):
                if not possible(d['dim'], c):
                    continue
                for k in ('AB', 'A', 'B'):
                    for a, b in [('k-1', 'k-1/2'), ('k', 'k-1')] if k == 'AB' else [('k-1/2', 'k')] if k == 'A' else [('k', 'k-1')]:
                        at = {x: ts[i] for x, i in dict(A=a, B=b, c='k', d='k-1', gA='k-1/2', gB='k-1/2').items()}
                        n += 1
                        rec.state(d['name'], N, zoo.label(c + (k,)), 'at', a, b)
                        try:
                            U, kind, o = zoo.system(SP, F, c + (k,), n, 'right' if k == 'AB' else 'left', '+', finite, None, at)
                        except Exception as e:
                            rec.outcome('refused: formulation at instants')
                            continue
                        things[f's{n}'] = o
                        made.append((f's{n}', c + (k,), a, b, U, kind))
                        got = True
            if got:
                things.update({f'{k}:{tag}': v for k, v in F.items()})
        finite()
        return things
    P = problems.build(d, N, define)
    if not made:
        return
    ts.specify('constant', [0, 1, 2], 2)
    curved = bent(d)
    Fi = Fields(P, 6 if not curved else int(1.5 * N) + 2)
    rng = np.random.default_rng(3)
    vals = {}
    for k, f in P.form.items():
        n = max(int(g.max()) for g in Fi.gm(f).values()) + 1
        for t in INSTANTS.values():
            vals[k, t] = rng.standard_normal(n)
            v = {e: vals[k, t][Fi.gm(f)[e]] for e in Fi.elements}
            f[t].cochain = v if P.htt else np.array([v[e] for e in Fi.elements])
    tens = {}
    for name, t, a, b, U, kind in made:
        tag = ','.join(t[:3])
        f = {x: P.form[f'{x}{s}:{tag}'] for x, s in (('A', t[0]), ('B', t[1]), ('c', t[2]))}
        key = f"{d['name']}:N{N}:{zoo.label(t)}:at {a},{b}"
        rec.trace()
        try:
            s = P.obj[name].apply()(k=1)
        except REFUSE as e:
            rec.outcome('refused: implementation')
            continue
        except Exception as e:
            rec.bad(key + ':raise', repr(e))
            continue
        if t[:6] not in tens:
            tens[t[:6]] = reference(Fi, f, t)
        Tn = {e: (-1 if t[6] == 'AB' else 1) * tens[t[:6]][e] for e in Fi.elements}
        rec.step()
        rec.outcome(kind + ' at instants')
        times = dict(A=INSTANTS[a], B=INSTANTS[b], c=1., d=0., gA=.5, gB=.5)
        mine = {k: vals[k, times[k[:2] if k[0] == 'g' else k[0]]] for k in P.form}
        if kind == 'ls':
            Blocks(P, Fi, f, U, tag, t, mine).decide(rec, key, s, kind, Tn, t[6], None)
        else:
            rec.bad(key + ':kind', 'a linear term made a nonlinear system')


def reference(Fi, f, t):
    sa, sb, sc, op, kind, pat = t[:6]
    out = {}
    ba, bb, bc = Fi.basis(f['A'], sa), Fi.basis(f['B'], sb), Fi.basis(f['c'], sc)
    for e in Fi.elements:
        a, b, c = ba[e], bb[e], bc[e]
        if 'dB' in pat:
            b = of_d(Fi, f['B'], sb, e)
        if pat.endswith('dC'):
            c = of_d(Fi, f['c'], sc, e)
        out[e] = tensor(Fi, e, a, b, c, op, kind, pat)
    return out


def of_d(Fi, f, s, e):
    """the fields of d of the basis functions of f, by the differential operator applied to their reconstruction"""
    b = Fi.basis(f, s)[e]
    dim, k, o = Fi.dim, int(s[1]), s[0]
    if len(b) == 1:
        gr = Fi.gradient(e, b)[0]
        if dim == 2 and o == 'o':
            return [gr[1], -gr[0]]
        return list(gr)
    # the field pulled back to the reference element is a polynomial there
    inv = Fi.inverse(e)
    Jm = np.moveaxis(np.linalg.inv(np.moveaxis(inv, 2, 0)), 0, 2)        # [x][r]
    det = np.linalg.det(np.moveaxis(Jm, 2, 0))
    R = range(dim)
    if dim == 2 and o == 'o' or dim == 3 and k == 2:
        ref = [sum(inv[r][x][:, None] * b[x] for x in R) * det[:, None] for r in R]
        return [sum(Fi.reference(ref[r], r) for r in R) / det[:, None]]
    ref = [sum(Jm[x][r][:, None] * b[x] for x in R) for r in R]
    if dim == 2:
        return [(Fi.reference(ref[1], 0) - Fi.reference(ref[0], 1)) / det[:, None]]
    c = [Fi.reference(ref[(i + 2) % 3], (i + 1) % 3) - Fi.reference(ref[(i + 1) % 3], (i + 2) % 3) for i in R]
    return [sum(Jm[x][r][:, None] * c[r] for r in R) / det[:, None] for x in R]


class Blocks:
    """the expected system of (c, C) + T(A, B, C) = (d, C), (u, t) = (g, t)"""

    def __init__(self, P, Fi, f, U, tag, t, vals):
        self.P, self.Fi, self.f, self.U = P, Fi, f, U
        self.forms = [f['c']] + [f[x] for x in U]
        self.keys = [f'c{t[2]}:{tag}'] + [f'{x}{s}:{tag}' for x, s in (('A', t[0]), ('B', t[1])) if x in U]
        self.rhs = [f'd{t[2]}:{tag}'] + [f'g{x}{s}:{tag}' for x, s in (('A', t[0]), ('B', t[1])) if x in U]
        self.vals = vals
        self.kA, self.kB = f'A{t[0]}:{tag}', f'B{t[1]}:{tag}'
        self.loc = lambda k, e: vals[k][Fi.gm(P.form[k])[e]]
        self.M = [{e: dense(m[e]) for e in Fi.elements} for m in
                  ((g.space.mass_matrix(g.degree)[0] if P.htt else g.matrix.mass) for g in self.forms)]

    def local(self, e, T_, known):
        """linear part of the local system"""
        sizes = [len(m[e]) for m in self.M]
        off = np.cumsum([0] + sizes)
        A = np.zeros((off[-1], off[-1]))
        b = np.zeros(off[-1])
        for i, m in enumerate(self.M):
            A[off[i]:off[i + 1], off[i]:off[i + 1]] = m[e]
            b[off[i]:off[i + 1]] = m[e] @ self.loc(self.rhs[i], e)
        if known == 'AB':
            b[:off[1]] -= np.einsum('ijk,i,j->k', T_, self.loc(self.kA, e), self.loc(self.kB, e))
        elif known == 'A':
            A[:off[1], off[1]:off[2]] += np.einsum('ijk,i->kj', T_, self.loc(self.kA, e))
        elif known == 'B':
            A[:off[1], off[1]:off[2]] += np.einsum('ijk,j->ki', T_, self.loc(self.kB, e))
        return A, b, off

    def decide(self, rec, key, s, kind, Tn, known, put):
        P, Fi = self.P, self.Fi
        if kind == 'ls':
            g = s.A._mA._gm_row if P.htt else s.A._mA._gm0_row
            for e in Fi.elements:
                A, b, off = self.local(e, Tn[e], known)
                rec.close(dense(s.A[e]), A, TOL, key + ':A', f'local matrix of element {e}')
                rec.close(np.asarray(s.b[e]), b, TOL, key + ':b', f'local vector of element {e}')
            return
        if known != '':
            rec.bad(key + ':kind', 'a linear term made a nonlinear system')
            return
        # numbering of the whole system: the unknowns one after the other
        n = [max(int(x.max()) for x in Fi.gm(f).values()) + 1 for f in self.forms]
        goff = np.cumsum([0] + n)
        self.goff = goff
        G = {e: np.concatenate([Fi.gm(f)[e] + goff[i] for i, f in enumerate(self.forms)]) for e in Fi.elements}

        def F_J(X):
            R = np.zeros(goff[-1])
            J = np.zeros((goff[-1], goff[-1]))
            loc = {}
            for e in Fi.elements:
                x = X[G[e]]
                A, b, off = self.local(e, Tn[e], '')
                r = A @ x - b
                ia, ib = 1 + self.U.index('A'), 1 + self.U.index('B')
                sa, sb, sc = (slice(off[i], off[i + 1]) for i in (ia, ib, 0))
                r[sc] += np.einsum('ijk,i,j->k', Tn[e], x[sa], x[sb])
                A = A.copy()
                A[sc, sa] += np.einsum('ijk,j->ki', Tn[e], x[sb])
                A[sc, sb] += np.einsum('ijk,i->kj', Tn[e], x[sa])
                loc[e] = r
                np.add.at(R, G[e], r)
                np.add.at(J, np.ix_(G[e], G[e]), A)
            return R, J, loc
        X0 = np.concatenate([self.vals[k] for k in self.keys])
        R, J, loc = F_J(X0)
        if P.htt:
            prov = [f.cochain[T] for f in self.forms]
        else:
            prov = [f[T].cochain.local for f in self.forms]
        for neg in (False, True):
            try:
                v = s.evaluate_f(prov, neg=neg)
            except REFUSE:
                rec.outcome('refused: evaluation')
                break
            except Exception as e:
                rec.bad(key + ':evaluate', repr(e))
                break
            off = None
            for e in Fi.elements:
                got = np.concatenate([np.asarray(x[e] if not hasattr(x, 'data') or P.htt else x[e]) for x in v])
                rec.close(got, -loc[e] if neg else loc[e], TOL, key + ':f', f'residual in element {e}')
        X = X0
        for it in ('1', 20):
            put()
            solve = s.solve
            try:
                _, message, info = solve(list(self.forms), maxiter=it, atol=1e-9)
            except REFUSE as e:
                rec.outcome('refused: solve')
                break
            except Exception as e:
                rec.bad(key + ':solve', repr(e))
                break
            got = np.zeros(goff[-1])
            for i, f in enumerate(self.forms):
                for e in Fi.elements:
                    c = f[T].cochain
                    got[Fi.gm(f)[e] + goff[i]] = np.asarray(c[e] if P.htt else c.local[e])
            if it == '1':
                want = X0 - np.linalg.solve(J, R)
                rec.close(got, want, 1e-9, key + ':newton', 'one Newton step')
            else:
                Rr = F_J(got)[0]
                rec.close(Rr, 0 * Rr, 1e-9, key + ':root', 'residual of the solution')
                rec.ok(info['convergence info'] == 0, key + ':info', info)
        put()


# ------------------------------------------------------------------------------- logarithms

def logs(task, rec):
    """(log A, B) of known scalar fields"""
    d, N = task['desc'], task['N']
    made = []

    def define(A, finite):
        SP = zoo.spaces(A)
        things, n = {}, 0
        for sa, sb in itertools.product(['i0', 'o0', 'i2', 'o2'], repeat=2):
            a, c, c0 = (SP[s].make_form(f'{x}_{{{sa}{sb}}}', f'{x} {sa} {sb}') for x, s in (('a', sa), ('c', sb), ('d', sb)))
            pde = ph.pde(['c = d'], dict(c=c, d=c0))
            pde.unknowns = [c]
            for side, sign, fac in [('right', '+', None), ('right', '-', 0.75)]:
                n += 1
                rec.state(d['name'], 'log', sa, sb, side, sign)
                wf = pde.test_with([SP[sb]], sym_repr=[rf't_{{{n}}}'])
                try:
                    T_ = ph.inner(a.log(output_space=SP[sb]), wf.test_forms[0], factor=fac)
                    w = wf.derive.replace('0-1', [T_, ph.inner(c0, wf.test_forms[0])], [sign, '+'])
                    finite()
                    things[f's{n}'] = w.mp().ls()
                except Exception:
                    rec.outcome('refused: formulation')
                    continue
                things.update({f'a{n}': a, f'c{n}': c, f'd{n}': c0})
                made.append((n, sa, sb, sign, fac))
        finite()
        return things
    P = problems.build(d, N, define)
    if not made:
        return
    Fi = Fields(P, 12)
    rng = np.random.default_rng(5)
    for n, sa, sb, sign, fac in made:
        a, c, c0 = (P.form[f'{x}{n}'] for x in 'acd')
        key = f"{d['name']}:N{N}:log:{sa},{sb}:{sign}{'f' if fac else ''}"
        rec.trace()
        v = {}
        for f in (a, c0):
            m = max(int(g.max()) for g in Fi.gm(f).values()) + 1
            ba = Fi.basis(f, sa if f is a else sb)
            # values near 3 and 0.1 apart, in spite of the sizes of the elements
            x = rng.uniform(2.9, 3.1, m)
            v[f] = {}
            for e in Fi.elements:
                g = Fi.gm(f)[e]
                scale = 1.0 if sa[1] == '0' or f is not a else np.abs(ba[e][0].sum(1)).mean()
                v[f][e] = x[g] / scale
            f[T].cochain = v[f] if P.htt else np.array([v[f][e] for e in Fi.elements])
        try:
            s = P.obj[f's{n}'].apply()(T)
            got = {e: np.asarray(s.b[e]) for e in Fi.elements}
        except REFUSE:
            rec.outcome('refused: implementation')
            continue
        rec.outcome('log')
        for e in Fi.elements:
            w = Fi.w * Fi.jac(e)
            b = Fi.basis(c, sb)[e][0]
            u = np.log(Fi.basis(a, sa)[e][0] @ v[a][e])
            want = (fac or 1) * (1 if sign == '+' else -1) * (b.T @ (w * u)) + b.T @ (w * (b @ v[c0][e]))
            # the mass matrix of the library on a curved mesh is a quadrature as well
            cz = v[c0][e]
            M_ = dense((c.space.mass_matrix(c.degree)[0] if P.htt else c.matrix.mass)[e])
            want = want - b.T @ (w * (b @ cz)) + M_ @ cz
            rec.close(got[e], want, 3e-5 * max(1, np.abs(want).max()), key + ':b', f'local vector of element {e}')


# ------------------------------------------------------------------------------- products with products

def four(task, rec):
    """(A x B, C x D) and <A x B | C x D> with B, C and possibly A known, for all spaces"""
    d, N, dim = task['desc'], task['N'], task['desc']['dim']
    made = []

    def define(A, finite):
        SP = zoo.spaces(A)
        F = {s: {x: SP[s].make_form(f'{x}_{{{s}}}', f'{x} {s}') for x in ('A', 'B', 'C', 'D', 'c', 'd', 'g')} for s in SP}
        things, n, used = {}, 0, set()
        for op in ('x1', 'x2', 'x3', 'x4'):
            pairs = []
            for sa, sb in itertools.product(SP, repeat=2):
                try:
                    getattr(F[sa]['A'], zoo.PRODUCTS[op])(F[sb]['B'])
                    pairs.append((sa, sb))
                except Exception:
                    continue
            for (sa, sb), (sc, sd), kind, known in itertools.product(pairs, pairs, ('ip', 'dp'), ('ABC', 'BC')):
                f = dict(A=F[sa]['A'], B=F[sb]['B'], C=F[sc]['C'], c=F[sd]['c'], d=F[sd]['d'], g=F[sa]['g'])
                product = lambda x, y: getattr(x, zoo.PRODUCTS[op])(y)     # noqa
                pair = ph.inner if kind == 'ip' else ph.dp
                try:
                    pair(product(f['A'], f['B']), product(f['C'], F[sd]['D']))
                except Exception:
                    continue
                for side, sign, fac in (('left', '+', None), ('right', '-', 0.75)):
                    if known == 'ABC' and side == 'left':
                        continue
                    n += 1
                    rec.state(d['name'], 'four', op, sa, sb, sc, sd, kind, known, side)
                    eqs, dic, U, S = ['c = d'], dict(c=f['c'], d=f['d']), [f['c']], [SP[sd]]
                    if known == 'BC':
                        eqs, U, S = eqs + ['A = g'], U + [f['A']], S + [SP[sa]]
                        dic.update(A=f['A'], g=f['g'])
                    pde = ph.pde(eqs, dic)
                    pde.unknowns = U
                    wf = pde.test_with(S, sym_repr=[rf't^{{{i}}}_{{{n}}}' for i in range(len(U))])
                    D = wf.test_forms[0]
                    try:
                        T_ = pair(product(f['A'], f['B']), product(f['C'], D), factor=fac)
                        T_.add_extra_info({'known-forms': [f[x] for x in known]})
                        rest = ph.inner(f['c'] if side == 'left' else f['d'], D)
                        w = wf.derive.replace('0-0' if side == 'left' else '0-1', [T_, rest], [sign, '+'])
                        finite()
                        things[f's{n}'] = w.mp().ls()
                    except Exception:
                        rec.outcome('refused: formulation')
                        continue
                    used |= {sa, sb, sc, sd}
                    made.append((n, op, (sa, sb, sc, sd), kind, known, side, sign, fac))
        for s in used:
            things.update({f'{x}:{s}': v for x, v in F[s].items() if x != 'D'})
        finite()
        return things
    P = problems.build(d, N, define)
    if not made:
        return
    curved = bent(d)
    Fi = Fields(P, 2 * N + 2 if curved else 8)
    rng = np.random.default_rng(5)
    v = {}
    for k, f in P.form.items():
        x = rng.standard_normal(max(int(g.max()) for g in Fi.gm(f).values()) + 1)
        v[k] = {e: x[Fi.gm(f)[e]] for e in Fi.elements}
        f[T].cochain = v[k] if P.htt else np.array([v[k][e] for e in Fi.elements])
    for n, op, (sa, sb, sc, sd), kind, known, side, sign, fac in made:
        key = f"{d['name']}:N{N}:four:{op}:{kind}:{sa},{sb},{sc},{sd}:{known}:{side}{sign}{'f' if fac else ''}"
        rec.trace()
        try:
            s = P.obj[f's{n}'].apply()(T)
        except REFUSE:
            rec.outcome('refused: implementation')
            continue
        rec.outcome('four ' + kind)
        for e in Fi.elements:
            w = Fi.w * Fi.jac(e)
            ba, bb, bc, bd = (Fi.basis(P.form[f'{x}:{y}'], y)[e] for x, y in zip('ABCc', (sa, sb, sc, sd)))
            vb = [(c @ v['B:' + sb][e])[:, None] for c in bb]
            vc = [(c @ v['C:' + sc][e])[:, None] for c in bc]
            AB, CD = zoo.cross(ba, vb), zoo.cross(vc, bd)
            q = sum(np.einsum('q,qd,qa->da', w, y, x) for x, y in zip(AB, CD) if not np.isscalar(x) and not np.isscalar(y))
            q = (fac or 1) * (1 if sign == '+' else -1) * (1 if side == 'left' else -1) * q
            ma, md = (dense((f.space.mass_matrix(f.degree)[0] if P.htt else f.matrix.mass)[e])
                      for f in (P.form[f'A:{sa}'], P.form[f'c:{sd}']))
            if known == 'ABC':
                A_, b_ = md, md @ v['d:' + sd][e] - q @ v['A:' + sa][e]
            else:
                A_ = np.block([[md, q], [np.zeros((len(ma), len(md))), ma]])
                b_ = np.concatenate([md @ v['d:' + sd][e], ma @ v['g:' + sa][e]])
            rec.close(dense(s.A[e]), A_, TOL, key + ':A', f'local matrix of element {e}')
            rec.close(np.asarray(s.b[e]), b_, TOL, key + ':b', f'local vector of element {e}')


# ------------------------------------------------------------------------------- solvers

GA, GB = r'\Gamma_a', r'\Gamma_b'
SIDES = {GA: ['x-', 'y+'], GB: None}
BCS = [(), ((GA, 'u'),), ((GB, 'w'),), ((GA, 'u'), (GB, 'w')), ((GA, 'u'), (GA, 'w')), ((GA, 'w'), (GB, 'w')), ((GA, 'u'), (GB, 'u'))]
SOLVE_HTT = [M('mix', 'crazy', dict(element_layout=[[1, 1, 2], 2], c=0.0, periodic=False)),
             M('c22', 'crazy', dict(element_layout=[2, 2], c=0.1, periodic=False))]
SOLVE_PY = [mp.D('pmix', 'crazy', [[1, 1, 2], 2], c=0.0, periodic=False, bounds=[[0, 1], [0, 1]])]
# (w x u, v) and (w w, tau), and how strong they are
FIRST, SECOND, THIRD = 0.5, 0.25, 0.3
UV = ph.vc.vector(lambda t, x, y: (1 + t + x - y) / 8, lambda t, x, y: (-0.5 + 2 * y + t) / 8)
WV = ph.vc.scalar(lambda t, x, y: (0.5 + t + x * y) / 8)
TIMES = (0.25, 1.5)


def coupled(bcs, htt):
    """(u, v) + a (w x u, v) - (p, dv) - b N + c (k x u, v) = (f, v), (w, s) - (u, ds) = (g, s), (du, q) = (h, q) where N is (w p, dv) (msehtt) or
    a second (w x u, v) (msepy)"""
    def define(A, finite):
        S = {k: A.space(i, 'outer') for i, k in enumerate('wup')}
        F = {k: S[k].make_form(k, k) for k in 'wup'}
        R = {k: S[k].make_form(k + '_r', k + ' right') for k in 'wup'}
        kn = S['w'].make_form('k', 'known w')
        w, u, p = (F[k] for k in 'wup')
        pde = ph.pde(['u = fu', 'w = fw', 'p = fp'], dict(u=u, w=w, p=p, fu=R['u'], fw=R['w'], fp=R['p']))
        pde.unknowns = [u, w, p]
        pde.bc.partition(GA, GB)
        sec = {}
        for s, k in bcs:
            sec.setdefault(s, []).append(ph.trace(F[k]))
        if sec:
            pde.bc.define_bc(sec)
        wf = pde.test_with([S['u'], S['w'], S['p']], sym_repr=['v', 's', 'q'])
        v, s_, q = wf.test_forms
        d = lambda f: f.exterior_derivative()   # noqa
        second = ph.inner(w.multi(p, S['p']), d(v), factor=SECOND) if htt else ph.inner(w.cross_product(u), v, factor=SECOND)
        third = ph.inner(kn.cross_product(u), v, factor=THIRD)
        third.add_extra_info({'known-forms': kn})
        wf = wf.derive.replace('0-0', [ph.inner(u, v), ph.inner(w.cross_product(u), v, factor=FIRST), ph.inner(p, d(v)), second, third],
                               ['+', '+', '-', '-', '+'])
        wf = wf.derive.replace('1-0', [ph.inner(w, s_), ph.inner(u, d(s_))], ['+', '-'])
        wf = wf.derive.replace('2-0', [ph.inner(d(u), q)], ['+'])
        finite()
        return dict(F, k=kn, **{'r' + x: f for x, f in R.items()}, nls=wf.mp().nls())
    return define


class Dense:
    """the same system with dense matrices and the tensors of the two nonlinear terms"""

    def __init__(self, P, Fi, known):
        self.P, self.Fi = P, Fi
        K = 'uwp'
        f = {k: P.form[k] for k in K}
        self.g = {k: Fi.gm(f[k]) for k in K}
        self.n = {k: max(int(x.max()) for x in self.g[k].values()) + 1 for k in K}
        self.off = dict(u=0, w=self.n['u'], p=self.n['u'] + self.n['w'])
        self.N = sum(self.n.values())
        self.G = {k: {e: self.g[k][e] + self.off[k] for e in Fi.elements} for k in K}
        N = self.N
        self.A = np.zeros((N, N))
        self.M = np.zeros((N, N))
        self.T = []
        M_ = {k: (f[k].space.mass_matrix(f[k].degree)[0] if P.htt else f[k].matrix.mass) for k in K}
        E = {k: (f[k].space.incidence_matrix(f[k].degree)[0] if P.htt else f[k].matrix.incidence) for k in 'uw'}
        M_, E = ({k: {e: dense(x[e]) for e in Fi.elements} for k, x in m.items()} for m in (M_, E))
        for e in Fi.elements:
            b = {k: Fi.basis(f[k], 'o' + '012'['wup'.index(k)])[e] for k in K}
            du = of_d(Fi, f['u'], 'o1', e)
            G = self.G
            add = lambda k, l, m: np.add.at(self.A, np.ix_(G[k][e], G[l][e]), m)     # noqa
            # inner products are those of the library (P03): it integrates with the nodes of the basis functions
            m = {k: M_[k][e] for k in K}
            add('u', 'u', m['u'])
            add('u', 'p', -(m['p'] @ E['u'][e]).T)
            add('w', 'w', m['w'])
            add('w', 'u', -(m['u'] @ E['w'][e]).T)
            add('p', 'u', m['p'] @ E['u'][e])
            for k in K:
                np.add.at(self.M, np.ix_(G[k][e], G[k][e]), m[k])
            # k (test u), i, j
            X = tensor(Fi, e, b['w'], b['u'], b['u'], 'x1', 'ip', 'AB|C')
            self.T.append((FIRST * X, G['w'][e], G['u'][e], G['u'][e]))
            add('u', 'u', THIRD * np.einsum('ijk,i->kj', X, known(self.g['w'][e])))
            if P.htt:
                Y = tensor(Fi, e, b['w'], b['p'], du, 'm', 'ip', 'AB|C')
                self.T.append((-SECOND * Y, G['w'][e], G['p'][e], G['u'][e]))
            else:
                self.T.append((-SECOND * X, G['w'][e], G['u'][e], G['u'][e]))

    def nonlinear(self, x):
        R, J = np.zeros(self.N), np.zeros((self.N, self.N))
        for T_, a, b, c in self.T:
            np.add.at(R, c, np.einsum('ijk,i,j->k', T_, x[a], x[b]))
            np.add.at(J, np.ix_(c, a), np.einsum('ijk,j->ki', T_, x[b]))
            np.add.at(J, np.ix_(c, b), np.einsum('ijk,i->kj', T_, x[a]))
        return R, J

    def vector(self, coch):
        x = np.zeros(self.N)
        for k in 'uwp':
            for e in self.Fi.elements:
                x[self.G[k][e]] = coch[k][e]
        return x

    def newton(self, x, b, fixed, n, first='uwp'):
        """n Newton steps -> list of (x, dx); values of the boundary conditions of the unknowns `first` are put into the first
        guess, those of the others are equations of the system"""
        x = x.copy()
        for i, v in fixed.items():
            if any(self.off[k] <= i < self.off[k] + self.n[k] for k in first):
                x[i] = v
        out = []
        for _ in range(n):
            R, J = self.nonlinear(x)
            r, J = self.A @ x + R - b, self.A + J
            for i, v in fixed.items():
                J[i] = 0
                J[i, i] = 1
                r[i] = x[i] - v
            dx = np.linalg.solve(J, -r)
            x = x + dx
            out.append((x, dx))
        return out

    def picard(self, x, b, fixed, n):
        out = []
        for _ in range(n):
            A, r = self.A.copy(), b - self.nonlinear(x)[0]
            for i, v in fixed.items():
                A[i] = 0
                A[i, i] = 1
                r[i] = v
            y = np.linalg.solve(A, r)
            out.append((y, y - x))
            x = y
        return out


def fixed_dofs(P, Fi, D, bcs, t):
    """{position: value} of the boundary conditions: the reductions of the fields on the sides"""
    out = {}
    L = dict(u=lambda fx, fy: ph.vc.vector(fx, fy), w=lambda fx, fy: ph.vc.scalar(fx))
    zero = lambda t, x, y: 0 * x      # noqa
    ind = {'x-': lambda t, x, y: 1. * (np.abs(x) < 1e-9), 'x+': lambda t, x, y: 1. * (np.abs(x - 1) < 1e-9),
           'y-': lambda t, x, y: 1. * (np.abs(y) < 1e-9), 'y+': lambda t, x, y: 1. * (np.abs(y - 1) < 1e-9)}

    def loc(k, fld, t):
        f = P.form[k]
        r = f.reduce(fld @ t) if P.htt else f.reduce(t, update_cochain=False, target=fld)
        return {e: np.asarray(r[e]) for e in Fi.elements}
    for s, k in bcs:
        sides = SIDES[s] or [x for x in ind if x not in SIDES[GA]]
        val = loc(k, UV if k == 'u' else WV, t)
        for sd in sides:
            one = (ind[sd], zero) if sd[0] == 'x' or k == 'w' else (zero, ind[sd])
            here = loc(k, L[k](*one), 0.)
            for e in Fi.elements:
                for g, i, v in zip(D.G[k][e], here[e], val[e]):
                    if abs(i) > 1e-12:
                        out[int(g)] = float(v)
    return out


SCHEMES = {True: ('Newton-Raphson', 'Picard'), False: ('Newton-Raphson',)}
GUESS = ('none', 'previous', 'now')
ITER = (('1', 1e-9), ('3', 1e-9), (1, 1e-9), (2, 1e-30), (30, 1e-8), (30, 1e-4), (30, 1e9))


def solver(task, rec):
    for scheme, guess in itertools.product(SCHEMES['domain' not in task['desc']], GUESS):
        if guess == 'none':
            for it in ITER:
                solve_runs(task, scheme, guess, [it], rec)
        else:
            solve_runs(task, scheme, guess, ITER, rec)


def solve_runs(task, scheme, guess, iters, rec):
    """runs with one problem; a problem whose unknowns have no values yet for the guess 'none'"""
    d, N, bcs = task['desc'], task['N'], BCS[task['bcs']]
    htt = 'domain' not in d
    name = f"{d['name']}:N{N}:bc{task['bcs']}"
    P = problems.build(d, N, coupled(bcs, htt), SIDES)
    dyn = P.obj['nls'].apply()
    for s, k in bcs:
        fld = UV if k == 'u' else WV
        if htt:
            P.obj['nls'].config(('essential bc', 1), place=P.sections[s], condition=fld, root_form=P.form[k])
        else:
            dyn.bc.config(P.sections[s], form=ph.trace(P.things[k]) if len([x for x in bcs if x[0] == s]) > 1 else None)(fld)
    Fi = Fields(P, int(1.5 * N) + 2 if bent(d) else 6)
    rng = np.random.default_rng(7)
    kv = rng.standard_normal(2000) * 0.5
    D = Dense(P, Fi, lambda g: kv[g])
    K = 'uwp'
    keep = {}
    rhs = {k: rng.standard_normal(D.n[k]) * 0.1 for k in K}
    start = rng.standard_normal(D.N) * 0.1

    def local(x, k):
        v = {e: x[D.G[k][e]] for e in Fi.elements}
        return v if htt else np.array([v[e] for e in Fi.elements])

    def put(k, tm, v):
        P.form[k][tm].cochain = v

    def get(tm):
        return D.vector({k: {e: np.array(P.form[k][tm].cochain[e] if htt else P.form[k][tm].cochain.local[e]) for e in Fi.elements}
                         for k in K})

    b = D.M @ np.concatenate([rhs[k] for k in K])
    closed = len([x for x in bcs if x[1] == 'u']) == 2
    for r, (it, atol) in enumerate(iters):
        key = f'{name}:{scheme}:{guess}:{it!r}:{atol:g}'
        rec.trace()
        rec.state(key)
        t = TIMES[1] + (r if guess == 'previous' else 0)
        t0 = t - 1
        for k in K:
            put('r' + k, t, {e: rhs[k][D.g[k][e]] for e in Fi.elements} if htt else np.array([rhs[k][D.g[k][e]] for e in Fi.elements]))
            if guess == 'previous':
                put(k, t0, local(start, k))
            if guess == 'now':
                put(k, t, local(start, k))
        kl = {e: kv[D.g['w'][e]] for e in Fi.elements}
        P.form['k'][t].cochain = kl if htt else np.array([kl[e] for e in Fi.elements])
        fixed = fixed_dofs(P, Fi, D, bcs, t)
        before = get(t0) if guess == 'previous' else None
        x0 = np.zeros(D.N) if guess == 'none' else start
        s = dyn(t)
        fx = dict(fixed)
        if closed:
            if not htt:
                s.customize.set_dof(D.N - 1, 0.625)
                fx[D.N - 1] = 0.625
            else:
                rec.outcome('singular')
                continue
        try:
            if not htt:
                _, msg, info = s.solve([P.form[k] for k in K], maxiter=it, atol=atol)
            else:
                _, msg, info = s.solve([P.form[k] for k in K], scheme=scheme, maxiter=it, atol=atol)
        except REFUSE as e:
            rec.outcome(f'refused: {scheme}')
            continue
        except Exception as e:
            rec.bad(key + ':raise', repr(e)[:200])
            continue
        rec.outcome(scheme)
        n = len(info['residuals'])
        got = get(t)
        if scheme[0] == 'N':
            # two ways to take the boundary conditions: both are Newton's method
            hist = min((D.newton(x0, b, fx, n, f) for f in (('uwp', 'up') if htt else ('uwp',))),
                       key=lambda h: np.abs(h[-1][0] - got).max() + sum(abs(np.linalg.norm(y) - z) for (_, y), z in zip(h, info['residuals'])))
        else:
            hist = D.picard(x0, b, fx, n)
        x, dx = hist[-1]
        rec.close(got, x, 1e-8 * max(1, np.abs(x).max()), key + ':x', f'cochains after {n} steps')
        last = np.linalg.norm(dx)
        ci = info['convergence info']
        if isinstance(it, str):
            rec.ok(n == int(it), key + ':n', f'{n} steps')
            rec.ok(ci != 0 or last < atol, key + ':ci', f'convergence is reported with a last step of {last}')
        else:
            rec.ok(1 <= n <= it, key + ':n', f'{n} steps')
            if ci == 0:
                rec.ok(last < atol, key + ':ci', f'convergence is reported with a last step of {last}')
            else:
                rec.ok(last >= atol * 0.5 or n == it, key + ':ci', f'stopped with {ci} although the last step was {last}')
                # no reason to stop before
                small = len(hist) > 1 and last > 0.99 * np.linalg.norm(hist[-2][1])
                rec.ok(n == it or small, key + ':early', f'stopped after {n} steps with {ci}, last step {last}')
            # nor to continue
            for y, dy in hist[:-1]:
                rec.ok(np.linalg.norm(dy) >= atol / len(dy), key + ':late', 'continued after convergence')
        if htt:
            rec.close(np.array(info['residuals']), [np.linalg.norm(y) for _, y in hist], 1e-8 * max(1, last), key + ':residuals',
                      'the steps reported')
        if before is not None:
            rec.close(get(t0), before, 0, key + ':history', 'cochains of the time before')
        for k in K:
            c = P.form['r' + k][t].cochain
            for e in Fi.elements:
                rec.close(np.asarray(c[e] if htt else c.local[e]), rhs[k][D.g[k][e]], 0, key + ':given', 'given data')
