"""Cochain histories: every operation sequence on the real objects next to a dictionary from time to coefficients."""
import itertools
import math
import numpy as np
import boot
import phyem as ph

ID = 'P15'
RULE = ('every sequence of operations up to the depth (set as dict/array, callable, gathered vector, sum of instants, interpolated '
        'copy, reduce, +=, override through a vector, clean in every form; through the form and through its time-shifted form; '
        'several instants in any order) on both implementations and several automatic-cleaning settings; after each operation all '
        'observers (times, newest, membership, values, static and dynamic vectors, interpolation between instants, coboundary, d(), '
        'difference with another form, reconstruction, norm, residual, interpolated point values) against the dictionary')
ASSUMPTIONS = ['automatic cleaning may drop any instants except the new one and the newest ones it promises to keep',
               'linear interpolation in time between neighbouring instants']
TIMEOUT = {'quick': 400, 'thorough': 3400}

T = [0, 0.5, 1]
PTS = np.array([-0.7, 0.1, 0.8])


def vals(n):
    k = np.arange(n)
    return {'A': 1.0 + 0.5 * k, 'B': np.cos(k * 1.3) * 2, 'C': -2.0 + 0.25 * k * k, 'Z': np.zeros(n)}


# -- one build with many fresh forms ---------------------------------------------------------------------------------------
class Pool:
    """hands out fresh forms of one space (each sequence starts with a form never used before)"""

    def __init__(self, kind, k, n):
        self.kind, self.k, self.left, self.n = kind, k, [], n
        self.build()

    def build(self):
        n = self.n
        ph.config.set_embedding_space_dim(2)
        M = ph.manifold(2)
        m = ph.mesh(M)
        ph.space.set_mesh(m)
        sp = ph.space.new('Lambda', self.k, orientation='outer')
        lo = ph.space.new('Lambda', max(self.k - 1, 0), orientation='outer')
        self.ts = ts = ph.time_sequence()
        fs = {f'f{i}': sp.make_form(r'f_{%d}' % i, f'f{i}') for i in range(n)}
        ps = {f'p{i}': fs[f'f{i}'] @ ts['k-1'] for i in range(n)}
        g = lo.make_form(r'g', 'g-form')
        ph.space.finite(1 if self.kind == 'msehtt' else 2)
        impl, obj = ph.fem.apply(self.kind, dict(M=M, m=m, g=g, **fs, **ps))
        if self.kind == 'msehtt':
            coo = {'a': (0, 0), 'b': (1, 0), 'c': (1, 1), 'd': (0, 1), 'e': (2, 0.2), 'f': (2, 1.3)}
            impl.config('tgm')(('tqr', {0: 9, 1: 9}, coo, {0: ['a', 'b', 'c', 'd'], 1: ['b', 'e', 'f', 'c']}), element_layout=0)
            impl.config(obj['m'])(impl.base['the_great_mesh'], including='all')
            self.elems = list(impl.base['the_great_mesh'].elements)
        else:
            impl.config(obj['M'])('crazy', c=0., periodic=False, bounds=[[0, 1], [0, 1.5]])
            impl.config(obj['m'])([2, 1])
            self.elems = [0, 1]
        ts.specify('constant', [0, 1, 4], 2)
        self.left = [(obj[f'f{i}'], obj[f'p{i}']) for i in range(n)]
        self.g = obj['g']
        f = self.left[0][0]
        gm = f.cochain.gathering_matrix
        self.gm = {e: np.asarray(gm[e]) for e in self.elems}
        self.ndof = max(int(v.max()) for v in self.gm.values()) + 1
        self.V = vals(self.ndof)
        self.setup()

    def get(self):
        if len(self.left) <= 1:
            self.build()
        return self.left.pop()

    def local(self, G):
        return {e: G[self.gm[e]] for e in self.elems}

    def setup(self):
        """the linear maps from coefficients to what is observed, from a form of its own"""
        f = self.left.pop()[0]
        self.lin = {}
        cols = {}
        for j in range(self.ndof):
            G = np.zeros(self.ndof)
            G[j] = 1
            self.write(f, 7, G)
            for nm, fn in self.linear().items():
                cols.setdefault(nm, []).append(np.asarray(fn(f, 7)).ravel())
        self.lin = {nm: np.array(c).T for nm, c in cols.items()}
        if self.kind == 'msehtt':
            M = f.space.mass_matrix(f.degree)[0]
            M = {e: np.asarray(M[e].toarray()) for e in self.elems}
        else:
            M = f.matrix.mass
            M = {e: M[e].toarray() for e in self.elems}
        A = np.zeros((self.ndof, self.ndof))
        for e in self.elems:
            A[np.ix_(self.gm[e], self.gm[e])] += M[e]
        self.A = A
        # the other form, for differences f - d(g)
        if self.k == 1:
            n = self.ng = max(int(np.max(np.asarray(self.g.cochain.gathering_matrix[e]))) for e in self.elems) + 1
            gg = self.g.cochain.gathering_matrix
            self.gvals = {0: np.sin(np.arange(n) + 1.0), 1: np.cos(np.arange(n) * 2.0)}
            for t, G in self.gvals.items():
                loc = {e: G[np.asarray(gg[e])] for e in self.elems}
                self.g[t].cochain = loc if self.kind == 'msehtt' else np.array([loc[e] for e in self.elems])
            if self.kind == 'msehtt':
                self.dg = {t: {e: np.asarray(v) for e, v in self.g[t].coboundary().items()} for t in self.gvals}

    def norm(self, G):
        return math.sqrt(max(float(G @ self.A @ G), 0))


class Htt(Pool):
    def write(self, f, t, G):
        f[t].cochain = self.local(G)

    def read(self, f, t):
        c = f[t].cochain
        return [np.asarray(c[e]) for e in self.elems]

    def linear(self):
        E = self.elems
        cat = lambda d: np.concatenate([np.asarray(d[e]).ravel() for e in E])
        out = {'coboundary': lambda f, t: cat(f[t].coboundary()) if self.k < 2 else [0.],
               'reconstruct': lambda f, t: np.concatenate([cat(v) for v in f[t].reconstruct(PTS, PTS, ravel=True)[1]])}
        return out

    def heavy(self):
        return {'value': lambda f, t: np.atleast_1d(f[t].numeric.value(0.31, 0.64)),
                'interpolate': lambda f, t: np.concatenate([np.atleast_1d(q(1.2, 0.5)).ravel() for q in comp(
                    f[t].numeric.interpolate(component_wise=True)[1])]),
                'interpolate data': lambda f, t: np.concatenate([np.asarray(q)[::97] for q in f[t].numeric.interpolate(
                    data_only=True)[2]])}


class Py(Pool):
    def write(self, f, t, G):
        d = self.local(G)
        f[t].cochain = np.array([d[e] for e in self.elems])

    def read(self, f, t):
        return list(np.asarray(f[t].cochain.local))

    def linear(self):
        return {'coboundary': lambda f, t: np.asarray(f[t].coboundary.cochain.local).ravel() if self.k < 2 else [0.],
                'reconstruct': lambda f, t: np.concatenate([np.asarray(v).ravel() for v in f[t].reconstruct(PTS, PTS, ravel=True)[1]])}

    def heavy(self):
        return {'interp': lambda f, t: np.concatenate([np.atleast_1d(q(.41, .3)) for q in comp(f.numeric.interp(t=t, density=6, factor=4))])}


def comp(x):
    return x if isinstance(x, (tuple, list)) else (x,)


# -- operations ------------------------------------------------------------------------------------------------------------
# an operation is a JSON list; 'model' says what it does to {t: global vector}
def alphabet(kind, size):
    al = [['set', 0, 'A'], ['set', 0.5, 'B'], ['set', 1, 'C'], ['set', 0.5, 'A'], ['clean']]
    if size == 'small':
        return al + [['clean', -2], ['set', 2, 'B'], ['set', 0, 'B'], ['set', -1, 'C']]
    al += [['set', 0.5 + 1e-10, 'C'], ['call', 1, 'B'], ['call', 0, 'C'], ['reduce', 1], ['reduce', 0], ['clean', -1], ['clean', -2],
           ['sum', 0, 1, 0.5], ['interp', 0.25, 1], ['override', 0, 1], ['pset', 1, 'A'], ['pclean'], ['diff', 1, 0, 2]]
    if kind == 'msehtt':
        al += [['clean', 'all'], ['cleant', 0.5], ['cleant', 1], ['gathered', 0.5, 'B'], ['iadd', 0, 'B'], ['iaddv', 1, 0], ['homogenous', 1],
               ['pcleant', 0]]
    else:
        al += [['noupdate', 1]]
    return al


def interp(model, t):
    ts = sorted(model)
    for a, b in zip(ts, ts[1:]):
        if a <= t <= b:
            r = (t - a) / (b - a)
            return model[a] + r * (model[b] - model[a])


class Refused(Exception):
    pass


def step(P, f, p, model, op, auto):
    """-> new model (set of possibilities for the kept times handled by the caller); raises Refused when it has to be refused"""
    o = op[0]
    htt = P.kind == 'msehtt'
    m = dict(model)

    def need(*ts):
        for t in ts:
            if t not in m:
                raise Refused

    if o in ('set', 'pset'):
        (P.write(f if o == 'set' else p, op[1], P.V[op[2]]))
        m[round(op[1], 8)] = P.V[op[2]]
    elif o == 'call':
        loc = P.local(P.V[op[2]])
        f[op[1]].cochain = (lambda e: loc[e]) if htt else (lambda t: np.array([loc[e] for e in P.elems]))
        m[op[1]] = P.V[op[2]]
    elif o == 'reduce':
        cf = P.cf()
        if htt:
            f[op[1]].reduce(cf[op[1]])
        else:
            f.cf = cf
            f[op[1]].reduce()
        m[op[1]] = P.reduced(op[1])
    elif o == 'noupdate':
        f.reduce(op[1], target=P.cf(), update_cochain=False)
    elif o in ('sum', 'diff'):
        a, b, t = op[1:]
        need(a, b)
        if o == 'sum':
            f[t].cochain = c_(P, f[a].cochain + f[b].cochain)
            m[t] = m[a] + m[b]
        else:
            f[t].cochain = c_(P, f[a].cochain - f[b].cochain)
            m[t] = m[a] - m[b]
    elif o == 'interp':
        t, to = op[1:]
        v = interp(m, t)
        if v is None:
            raise Refused
        f[to].cochain = f(t) if htt else f.cochain(t).local
        m[to] = v
    elif o == 'override':
        a, b = op[1:]
        need(a)
        # a vector of the coefficients at a, written to the form at b
        v = f.cochain.dynamic_vec(a) if htt else f[a].vec
        w = f.cochain.static_vec(b)
        w._receive_data(v.data_dict) if htt else setattr(w, 'data', v.data)
        w.override()
        m[b] = m[a]
    elif o == 'clean':
        f.cochain.clean(*op[1:])
        m = cleaned(m, op[1:])
    elif o == 'pclean':
        p.cochain.clean()
        m = cleaned(m, ())
    elif o in ('cleant', 'pcleant'):
        (f if o == 'cleant' else p).cochain.clean(t=op[1])
        m.pop(op[1], None)
    elif o == 'gathered':
        P.write(f, 9, P.V[op[2]])
        v = f[9].cochain.gathered_global_vector
        f.cochain.clean(t=9)
        if auto is not False:
            m = dict((t, x) for t, x in m.items() if t in f.cochain)      # the helper instant may have pushed some out
        f[op[1]].cochain = v
        m[op[1]] = P.V[op[2]]
    elif o == 'iadd':
        need(op[1])
        other = P.other_gathered(op[2])
        c = f[op[1]].cochain
        c += other
        m[op[1]] = m[op[1]] + P.V[op[2]]
    elif o == 'iaddv':
        need(op[1], op[2])
        c = f[op[1]].cochain
        c += f.cochain.static_vec(op[2])
        m[op[1]] = m[op[1]] + m[op[2]]
    elif o == 'homogenous':
        need(op[1])
        f[op[1]].cochain.homogenous()
    else:
        raise KeyError(o)
    return m


def c_(P, x):
    return x


def cleaned(m, what):
    ts = sorted(m)
    if not what or what[0] is None:
        ts = ts[-1:]
    elif what[0] == 'all':
        ts = []
    else:
        ts = ts[what[0]:] if len(ts) > -what[0] else ts
    return {t: m[t] for t in ts}


def _cf(P):
    if P.k == 1:
        return ph.vc.vector(lambda t, x, y: x + t, lambda t, x, y: y * t - 1)
    return ph.vc.scalar(lambda t, x, y: x + y * t)


def _reduced(P, t):
    """the coefficients from a form of its own"""
    if t not in P.red:
        f = P.get()[0]
        if P.kind == 'msehtt':
            f[t].reduce(P.cf()[t])
        else:
            f.cf = P.cf()
            f[t].reduce()
        G = np.zeros(P.ndof)
        for e, v in zip(P.elems, P.read(f, t)):
            G[P.gm[e]] = v
        P.red[t] = G
    return P.red[t]


def _other(P, v):
    f = P.get()[0]
    P.write(f, 0, P.V[v])
    return f[0].cochain.gathered_global_vector


Pool.cf = _cf
Pool.reduced = _reduced
Pool.other_gathered = _other

SETS = ('set', 'pset', 'call', 'reduce', 'sum', 'diff', 'interp', 'override', 'gathered')


def target(op):
    o = op[0]
    if o in ('set', 'pset', 'call', 'reduce', 'gathered'):
        return round(op[1], 8)
    if o in ('sum', 'diff'):
        return op[3]
    if o in ('interp', 'override'):
        return op[2]


# -- observers -------------------------------------------------------------------------------------------------------------
def observe(P, f, p, m, key, rec, deep, heavy, refusals):
    htt = P.kind == 'msehtt'
    ts = sorted(m)
    for nm, q in (('', f), ('shifted ', p)):
        c = q.cochain
        if htt:
            rec.ok(list(c.times) == ts and len(c) == len(ts) and sorted(c) == ts, f'{key}|{nm}times', lambda: f'{list(c.times)} {len(c)} not {ts}')
        else:
            rec.ok(len(c) == len(ts), f'{key}|{nm}number of instants', lambda: f'{len(c)} not {ts}')
        rec.ok(all(t in c for t in ts) and not any(t in c for t in (-3, 0.1, 7) if t not in m), f'{key}|{nm}membership')
        new = c.newest
        rec.ok(new == (ts[-1] if ts else None), f'{key}|{nm}newest', lambda: f'{new} of {ts}')
        for t in ts:
            rec.step()
            for v, e in zip(P.read(q, t), P.elems):
                rec.close(v, m[t][P.gm[e]], 1e-13, f'{key}|{nm}coefficients {t}', 'coefficients')
        if ts:
            for v, e in zip(P.read(q, None), P.elems):
                rec.close(v, m[ts[-1]][P.gm[e]], 1e-13, f'{key}|{nm}newest coefficients', 'coefficients')
        # between instants
        for t in (0.25, 0.75, 1.5, 0.5, -0.5):
            v = interp(m, t)
            if v is not None:
                good, w = rec.guard(f'{key}|{nm}interpolate {t}', lambda: q(t).cochain if htt else q.cochain(t).local)
                if good:
                    for e in P.elems:
                        rec.close(w[e], v[P.gm[e]], 1e-12, f'{key}|{nm}interpolated {t}', 'coefficients')
            elif refusals and not (not htt and t in m):
                rec.raises(f'{key}|{nm}interpolate {t} outside', lambda: (q(t).cochain if htt else q.cochain(t).local))
    if refusals:
        for t in (0, 0.5, 1, 3):
            if t not in m:
                rec.raises(f'{key}|read missing {t}', lambda: P.read(f, t))
    for t in ts:
        v = f.cochain.static_vec(t)
        for e in P.elems:
            rec.close(v[e], m[t][P.gm[e]], 1e-13, f'{key}|static vector {t}', 'coefficients')
        v = f.cochain.dynamic_vec(t)
        for e in P.elems:
            rec.close(v[e], m[t][P.gm[e]], 1e-13, f'{key}|dynamic vector {t}', 'coefficients')
    for k, t in ((1, 0), (2, 0.5), (3, 1)):
        if t in m:
            good, v = rec.guard(f'{key}|shifted vector k={k}', lambda: p.cochain.dynamic_vec(k=k))
            if good:
                for e in P.elems:
                    rec.close(v[e], m[t][P.gm[e]], 1e-13, f'{key}|shifted vector k={k}', 'coefficients')
            if not htt:
                for v, e in zip(p(k=k).cochain.local, P.elems):
                    rec.close(v, m[t][P.gm[e]], 1e-13, f'{key}|shifted copy k={k}', 'coefficients')
    if not deep:
        return
    for t in ts:
        for nm, fn in P.linear().items():
            good, v = rec.guard(f'{key}|{nm} {t}', fn, f, t)
            if good:
                rec.close(np.asarray(v).ravel(), P.lin[nm] @ m[t], 1e-11 * (1 + np.abs(m[t]).max()), f'{key}|{nm} {t}', nm)
        good, v = rec.guard(f'{key}|norm {t}', lambda: f[t].norm())
        if good:
            rec.close(v, P.norm(m[t]), 1e-8 * (1 + P.norm(m[t])), f'{key}|norm {t}', 'norm')
        for s in ts:
            if htt and P.k == 1:
                # (there for 1-forms only) the inner product may be computed with another quadrature rule than the mass matrix
                good, v = rec.guard(f'{key}|inner product {t} {s}', lambda: f[t].inner_product(f[s]))
                if good:
                    rec.close(v, m[t] @ P.A @ m[s], 1e-7 * (1 + P.norm(m[t]) * P.norm(m[s])), f'{key}|inner product {t} {s}')
            elif not htt and s != t:
                good, v = rec.guard(f'{key}|norm of difference {t} {s}', lambda: f.norm(t, diff_to_t=s))
                if good:
                    rec.close(v, P.norm(m[t] - m[s]), 1e-8 * (1 + P.norm(m[t] - m[s])), f'{key}|norm of difference {t} {s}')
    good, v = rec.guard(f'{key}|residual', lambda: f.norm_residual())
    if good:
        if len(ts) < 2:
            rec.ok(np.isnan(v), f'{key}|residual of less than two instants', f'{v}')
        else:
            w = P.norm(m[ts[-1]] - m[ts[-2]])
            rec.close(v, w, 1e-7 * (1 + w), f'{key}|residual', 'norm of the last change')
    if len(ts) >= 2:
        for a, b in ((ts[0], None), (None, ts[0]), (ts[0], ts[-1])):
            good, v = rec.guard(f'{key}|residual {a} {b}', lambda: f.norm_residual(from_time=a, to_time=b))
            if good:
                x, y = (ts[-2] if a is None else a), (ts[-1] if b is None else b)
                if x == y:
                    rec.ok(np.isnan(v), f'{key}|residual {a} {b} of one instant', f'{v}')
                else:
                    w = P.norm(m[x] - m[y])
                    rec.close(v, w, 1e-7 * (1 + w), f'{key}|residual {a} {b}')
    if P.k < 2:
        good, d = rec.guard(f'{key}|d()', lambda: f.d())
        if good:
            for t in ts:
                w = P.lin['coboundary'] @ m[t]
                v = np.concatenate([np.asarray(q).ravel() for q in ([d[t].cochain[e] for e in P.elems] if htt else d[t].cochain.local)])
                rec.close(v, w, 1e-11 * (1 + np.abs(m[t]).max()), f'{key}|d() {t}')
            if htt:
                rec.ok(sorted(d.cochain.times) == ts, f'{key}|d() times', f'{d.cochain.times} {ts}')
    if P.k == 1 and htt:
        for sg, nm, fn in ((-1, 'f - d(g)', lambda: f - P.g.d()), (1, 'f + d(g)', lambda: f + P.g.d())):
            good, d = rec.guard(f'{key}|{nm}', fn)
            if good:
                both = [t for t in ts if t in P.gvals]
                rec.ok(sorted(d.cochain.times) == both, f'{key}|{nm} times', f'{d.cochain.times} {both}')
                for t in both:
                    if t in d.cochain:
                        for e in P.elems:
                            rec.close(d.cochain[t][e], m[t][P.gm[e]] + sg * P.dg[t][e], 1e-12, f'{key}|{nm} {t}')
    if not htt and P.k == 1:
        for sg, nm, fn in ((-1, 'f - f', lambda: f - p_(P)), (1, 'f + f', lambda: f + p_(P))):
            good, d = rec.guard(f'{key}|{nm}', fn)
            if good:
                for t in ts:
                    if t in P.fx_model:
                        v = d[t].cochain.local
                        for i, e in enumerate(P.elems):
                            rec.close(v[i], (m[t] + sg * P.fx_model[t])[P.gm[e]], 1e-12, f'{key}|{nm} {t}')
    if heavy:
        for t in ts[-2:]:
            for nm, fn in P.heavy().items():
                good, v = rec.guard(f'{key}|{nm} {t}', fn, f, t)
                if good:
                    rec.close(np.asarray(v).ravel(), P.heavy_lin(nm) @ m[t], 1e-11 * (1 + np.abs(m[t]).max()), f'{key}|{nm} {t}', nm)
        if ts and htt:
            good, v = rec.guard(f'{key}|tsp energy', lambda: f.numeric.tsp.L2_energy()(0.3, np.array([0.31]), np.array([0.64]))[0])
            if good:
                w = P.heavy_lin('value') @ m[ts[-1]]
                rec.close(v, 0.5 * np.sum(w ** 2), 1e-10 * (1 + np.sum(w ** 2)), f'{key}|newest energy')
            for t in (None, ts[0]):
                if P.k == 1:
                    good, v = rec.guard(f'{key}|tsp components {t}', lambda: [c(0.3, np.array([0.31]), np.array([0.64]))[0][0]
                                                                             for c in f.numeric.tsp.components(t=t)])
                    if good:
                        rec.close(v, P.heavy_lin('value') @ m[ts[-1] if t is None else t], 1e-10 * (1 + np.abs(m[ts[0]]).max() + np.abs(m[ts[-1]]).max()),
                                  f'{key}|tsp components {t}')


def p_(P):
    if not hasattr(P, 'fx') or P.fx_owner is not P.g:
        P.fx, _ = P.get()
        P.fx_owner = P.g
        P.fx_model = {0: P.V['B'], 1: P.V['A']}
        for t, G in P.fx_model.items():
            P.write(P.fx, t, G)
    return P.fx


def _heavy_lin(P, nm):
    """columns from one form per column (nothing cached is met)"""
    if not hasattr(P, 'hl'):
        P.hl = {}
    if nm not in P.hl:
        cols = []
        for j in range(P.ndof):
            f = P.get()[0]
            G = np.zeros(P.ndof)
            G[j] = 1
            P.write(f, 0.125, G)
            cols.append(np.asarray(P.heavy()[nm](f, 0.125)).ravel())
        P.hl[nm] = np.array(cols).T
    return P.hl[nm]


Pool.heavy_lin = _heavy_lin


# -- exploration -----------------------------------------------------------------------------------------------------------
def plans(tier):
    """(kind, k, auto, alphabet, depth, deep observers, heavy observers)"""
    q = tier == 'quick'
    out = []
    for kind in ('msehtt', 'msepy'):
        for k in (0, 1, 2):
            out.append(dict(kind=kind, k=k, auto=False, size='large', depth=2, deep=True, heavy=True))
        out.append(dict(kind=kind, k=1, auto=False, size='large', depth=3 if q else 4, deep=not q and False, heavy=False))
        out.append(dict(kind=kind, k=1, auto=False, size='small', depth=4 if q else 6, deep=False, heavy=False))
        out.append(dict(kind=kind, k=1, auto=False, size='small', depth=3 if q else 4, deep=True, heavy=kind == 'msehtt' or not q))
        for auto in ((True, 2) if kind == 'msehtt' else (2, 3)):
            out.append(dict(kind=kind, k=1, auto=auto, size='small', depth=4 if q else 6, deep=False, heavy=False))
            out.append(dict(kind=kind, k=1, auto=auto, size='large', depth=2 if q else 3, deep=True, heavy=False))
    return out


def tasks(tier):
    out = []
    for pl in plans(tier):
        al = alphabet(pl['kind'], pl['size'])
        n = len(al) ** pl['depth'] * (8 if pl['heavy'] else 2 if pl['deep'] else 1)
        pl['parts'] = max(1, min(len(al), n // 1500))
        for i in range(pl['parts']):
            out.append(dict(plan=pl, part=i))
    for auto in (True, 2, 3):
        for kind in ('msehtt', 'msepy'):
            out.append(dict(long=kind, auto=auto))
    return out


def run(task, rec):
    if 'long' in task:
        _long(task, rec)
        rec.sample(task)
        return
    pl = task['plan']
    P = (Htt if pl['kind'] == 'msehtt' else Py)
    P = make(P, pl)
    al = alphabet(pl['kind'], pl['size'])
    first = [op for i, op in enumerate(al) if i % pl['parts'] == task['part']]
    ph.config.set_auto_cleaning(pl['auto'])
    for seq in itertools.product(first, *([al] * (pl['depth'] - 1))):
        one(P, seq, pl, rec)
    rec.sample(task)
    rec.outcome(f"{pl['kind']} {pl['k']}-form, cleaning {pl['auto']}, {pl['size']} alphabet depth {pl['depth']}")


def make(cls, pl):
    P = cls.__new__(cls)
    P.red = {}
    ph.config.set_auto_cleaning(False)
    P.__init__(pl['kind'], pl['k'], 600)
    return P


def one(P, seq, pl, rec):
    htt = P.kind == 'msehtt'
    for op in seq:                      # what comes from forms of their own is made before the sequence starts
        if op[0] == 'reduce':
            P.reduced(op[1])
    if pl['heavy']:
        for nm in P.heavy():
            P.heavy_lin(nm)
    if not htt:
        p_(P)
    f, p = P.get()
    m = {}
    name = f"{pl['kind']} k{pl['k']} cleaning {pl['auto']}"
    handed = []
    for i, op in enumerate(seq):
        key = f'{name} ' + ' '.join('/'.join(str(x) for x in o) for o in seq[:i + 1])
        before = m
        rec.step()
        try:
            m = step(P, f, p, m, op, pl['auto'])
        except Refused:
            return                      # not enabled here: the shorter sequence is covered by itself
        except NotImplementedError as e:
            if htt or op[0] not in ('sum', 'diff'):
                rec.bad(f'{key}|raise:{type(e).__name__}', f'{op} raised {e!r}')
                return
            rec.outcome('refused')      # msepy does not add instants set by a function to others: the store stays as it was
            if i == len(seq) - 1:
                observe(P, f, p, m, key, rec, pl['deep'], pl['heavy'], True)
            return
        except Exception as e:
            import core
            rec.bad(f'{key}|raise:{type(e).__name__}', f'{op} raised {e!r}\n' + core.tb_tail(e))
            return
        if pl['auto'] is not False and op[0] in SETS:
            # the store may have dropped old instants: but not the new one and not the newest it has to keep
            keep = int(3 if pl['auto'] is True else pl['auto']) if htt else 10 if pl['auto'] is True else pl['auto']
            left = [t for t in sorted(m) if t in f.cochain]
            must = set(sorted(before)[-(keep - 1):]) | {target(op)} if op[0] != 'gathered' else {target(op)}
            if not rec.ok(must <= set(left), f'{key}|cleaning dropped what it keeps', f'{left} of {sorted(m)}'):
                return
            m = {t: m[t] for t in left}
            if htt:
                rec.ok(len(m) <= keep, f'{key}|cleaning keeps too much', f'{left}')
        # the observers are read after every operation of the last level only (prefixes are sequences of their own) but the
        # interpolation caches have to see the states on the way
        last = i == len(seq) - 1
        if last:
            rec.state(key)
            observe(P, f, p, m, key, rec, pl['deep'], pl['heavy'], True)
            rec.trace()
        elif pl['heavy'] and m:
            for nm, fn in P.heavy().items():
                rec.guard(f'{key}|{nm}', fn, f, sorted(m)[-1])


def _long(task, rec):
    """long time marching with automatic cleaning: the newest instants stay right"""
    kind, auto = task['long'], task['auto']
    pl = dict(kind=kind, k=1, auto=auto)
    P = make(Htt if kind == 'msehtt' else Py, pl)
    p_(P) if kind == 'msepy' else None
    ph.config.set_auto_cleaning(auto)
    f, p = P.get()
    m = {}
    keep = (3 if kind == 'msehtt' else 10) if auto is True else auto
    for i in range(60):
        t = round(0.1 * i, 8) if i % 7 else round(0.1 * i - 0.35, 8)
        G = P.V['ABC'[i % 3]] * (1 + i)
        prev = sorted(m)[-(keep - 1):]
        P.write(f, t, G)
        m[t] = G
        left = [s for s in sorted(m) if s in f.cochain]
        key = f'{kind} cleaning {auto} step {i}'
        rec.state(key)
        if not rec.ok(t in left and set(prev) <= set(left), f'{key}|dropped', f'{left} of {sorted(m)}'):
            return
        rec.ok(len(left) <= 2 * keep + 1, f'{key}|keeps too much', f'{left}')
        m = {s: m[s] for s in left}
        observe(P, f, p, m, key, rec, True, False, False)
    rec.trace()
