"""Reduction o reconstruction = identity; reconstruction of fields in the space is exact; all evaluation routes agree."""
from checks.common import *
from pull import *

ID = 'P03'
RULE = ('every mesh of the families (both implementations) x degree x orientation x form order; for small meshes every '
        'basis cochain of every cell (which decides the linear identity for all cochains), else one generic cochain of '
        'representative cells; constants and linear fields; a state is one (mesh, degree, form, cell)')
ASSUMPTIONS = ['the reconstructed field is evaluated off the given points by exact polynomial interpolation in reference '
               'coordinates; reduction of smooth fields is compared within a quadrature/approximation bound']


def tasks(tier):
    out = []
    for d in predefined2(tier) + refined2(tier) + fans(tier) + meshes3(tier) + mp.family(tier):
        for N in degrees_for(d, tier):
            if uniform_ok(d, N):
                out.append([d, N])
    for p in patches(tier):
        out.append([p, 2])
        if tier != 'quick':
            out.append([p, 3])
    return group(out)


def names(dim):
    return [(o, k) for o in ('inner', 'outer') for k in range(dim + 1)]


def unsupported(a, k):
    return a.kind == 'msehtt' and a.dim == 3 and any('hexahedron' in str(a.etype(e)) and 'ortho' not in
                                                     str(a.etype(e)) for e in a.elems)


def comp(dim, f):
    """a function with the exact signature (t, x[, y[, z]]) the framework looks for"""
    if dim == 1:
        return lambda t, x: f(x)
    if dim == 2:
        return lambda t, x, y: f(x, y)
    return lambda t, x, y, z: f(x, y, z)


class Field:
    """the field that equals the given reference components on element e, as a vc object"""

    def __init__(self, a, e, kd, ti):
        self.a, self.e, self.kd, self.ti = a, e, kd, ti
        self.map = lambda *p: a.mapping(e, *p)
        self.store = a.__dict__.setdefault('_inv', {})
        if e not in self.store:
            self.store[e] = Inverse(self.map, a.dim), {}
        self.inv, self.cache = self.store[e]
        self.ref = None

    def geo(self, X):
        k = (X.tobytes(), self.kd == 'scalar')
        if k not in self.cache:
            P = self.inv(X)
            ok = np.isfinite(P).all(axis=0)
            P = P[:, ok]
            if P.size:
                B = self.ti.at(list(P))
                J = num_jac1(self.map, list(P)) if self.kd != 'scalar' else None
            else:
                B = J = None
            self.cache[k] = ok, B, J
        return self.cache[k]

    def comps(self, *x):
        shape = np.broadcast(*x).shape
        X = np.array([np.broadcast_to(np.asarray(q, float), shape).ravel() for q in x])
        ok, B, J = self.geo(X)
        nc = len(self.ref)
        out = np.zeros((nc, X.shape[1]))
        if B is not None:
            out[:, ok] = push(self.kd, J, np.array([B @ r for r in self.ref]))
        return [o.reshape(shape) for o in out]

    def vc(self, dim):
        nc = len(self.ref)
        fs = [comp(dim, lambda *x, i=i: self.comps(*x)[i]) for i in range(nc)]
        return ph.vc.scalar(fs[0]) if nc == 1 else ph.vc.vector(*fs)


def representatives(a, limit):
    if len(a.elems) <= limit:
        return a.elems
    seen, out = set(), []
    for e in a.elems:
        t = str(a.etype(e))
        if t not in seen:
            seen.add(t)
            out.append(e)
    for e in (a.elems[-1], a.elems[len(a.elems) // 2], a.elems[0]):
        if e not in out:
            out.append(e)
    return out[:limit]


def run(task, rec):
    run_group(one, task, rec)


def one(task, rec):
    desc, N = task
    N = deg(N)
    key = f"{desc['name']}|{N}"
    good, a = rec.guard(key + '|build', impl.make, desc, N)
    if not good:
        return
    dim = desc['dim']
    nm = max(deg_list(N, 1))
    ti = TensorInterp(nm + 3, dim)
    grid = [ti.x] * dim
    pts = flat(*grid)
    rng = [np.sin(1 + 1.7 * i) for i in range(4000)]
    small = len(a.elems) <= 4 and not patchy(desc) and nm <= 3 and (dim < 3 or nm == 1)
    E = representatives(a, 4 if dim < 3 else 2)
    Js = {e: num_jac1(lambda *p: a.mapping(e, *p), pts) for e in E}
    other = [np.array(sorted([-0.83, 0.11 * (q + 1), 0.71])) for q in range(dim)]
    opts = flat(*other)
    Jo = {e: num_jac1(lambda *p: a.mapping(e, *p), opts) for e in E}
    for o, k in names(dim):
        n = f'{o}{k}'
        kk = f'{key}|{n}'
        if unsupported(a, k):
            rec.outcome('curvilinear hexahedra: reconstruction of 2- and 3-forms not offered')
            continue
        kd = kind(o, k, dim)
        gm = a.gm(n)
        gen = {e: np.array([rng[i + 17 * j] for i in range(len(gm[e]))]) for j, e in enumerate(a.elems[:100])}
        for e in a.elems[100:]:
            gen[e] = np.array([rng[i] for i in range(len(gm[e]))])
        # --- coordinates, reconstruction matrix, linearity
        a.put(n, gen)
        good, R = rec.guard(kk + '|reconstruct', a.rec, n, *other)
        if not good:
            continue
        for e in a.elems:
            rec.close(R[e][0], a.mapping(e, *opts), 1e-11, kk + '|coordinates', f'element {e}')
        if a.kind == 'msehtt':
            try:
                RMs = a.RM(n, *other)
            except NotImplementedError:
                rec.outcome('reconstruction matrix not offered for this cell kind')
                RMs = None
            if RMs is not None:
                for e in a.elems:
                    v = np.array([m @ gen[e] for m in RMs[e]])
                    sc = max(1, np.abs(R[e][1]).max())
                    rec.close(v, R[e][1], 1e-10 * sc, kk + '|RM', f'reconstruction matrix, element {e}')
        else:
            pymatrix(a, n, other, gen, R, rec, kk)
        cellwise(a, n, other, R, rec, kk, dim)
        # --- reduce o reconstruct = id
        RG = a.rec(n, *grid)
        for e in E:
            f = Field(a, e, kd, ti)
            rec.state(key, n, e)

            def back(vec):
                d = {q: (vec if q == e else 0 * gen[q]) for q in a.elems}
                a.put(n, d)
                V = a.rec(n, *grid)[e][1]
                f.ref = pull(kd, Js[e], V)
                rec.step(2)
                c = a.reduce(n, f.vc(dim))[e]
                # the interpolant really is the reconstructed field
                return c
            nb = len(gm[e])
            vecs = [gen[e]]
            if small and nb <= 30:
                vecs += list(np.eye(nb))
            for q, vec in enumerate(vecs):
                good, c = rec.guard(kk + '|identity', back, vec)
                if good:
                    rec.close(c, vec, 2e-6 * max(1, np.abs(vec).max()), kk + '|identity',
                              f'reduce(reconstruct(c)) != c, element {e}, vector {q}')
            # interpolation in reference coordinates is exact
            f.ref = pull(kd, Js[e], RG[e][1])
            if e in gen:
                v = push(kd, Jo[e], np.array([ti.at(opts) @ r for r in f.ref]))
                sc = max(1, np.abs(R[e][1]).max())
                rec.close(v, R[e][1], 1e-6 * sc, kk + '|polynomial', f'element {e}')
        exactness(a, desc, N, n, o, k, other, rec, kk)
    smooth(a, desc, N, other, rec, key)
    rec.trace()
    rec.sample(dict(mesh=desc['name'], degree=N, elements=len(E), all_basis_cochains=small))


def pymatrix(a, n, other, gen, R, rec, kk):
    f = a.forms[n]
    good, RM = rec.guard(kk + '|RM', f.reconstruction_matrix, *other) if hasattr(f, 'reconstruction_matrix') else (False, 0)
    if not good:
        return
    for e in a.elems:
        r = RM[e] if not isinstance(RM, tuple) else tuple(x[e] for x in RM)
        r = r if isinstance(r, (tuple, list)) else [r]
        v = np.array([dense(m) @ gen[e] for m in r])
        rec.close(v, R[e][1], 1e-10 * max(1, np.abs(R[e][1]).max()), kk + '|RM', f'element {e}')


def cellwise(a, n, other, R, rec, kk, dim):
    """un-raveled and single-cell reconstruction give the same values"""
    if dim == 1:
        return
    f = a.forms[n]
    good, xv = rec.guard(kk + '|unravel', f[0.5].reconstruct, *other, ravel=False)
    if good:
        x, v = xv
        for e in a.elems:
            g = np.array([np.asarray(c[e]).ravel('F') for c in v])
            rec.close(g, R[e][1], 1e-12, kk + '|unravel', f'element {e}')
            g = np.array([np.asarray(c[e]).ravel('F') for c in x])
            rec.close(g, R[e][0], 1e-12, kk + '|unravel-x', f'element {e}')
    if a.kind == 'msehtt':
        e = a.elems[-1]
        good, xv = rec.guard(kk + '|one', f[0.5].reconstruct, *other, ravel=True, element_range=[e])
        if good:
            x, v = xv
            rec.close(np.array([c[e] for c in v]), R[e][1], 1e-12, kk + '|one', f'element {e}')


def exactness(a, desc, N, n, o, k, other, rec, kk):
    """constants (and linear functions for 0-forms) on straight-sided, non-periodic meshes"""
    dim = desc['dim']
    if curved(desc) or (dim == 3 and desc['kw'].get('c')):
        return
    if any('curvilinear' in str(a.etype(e)) for e in a.elems):
        return
    q = [0.7, -1.3, 0.4]
    per = period_of(desc) is not None
    if k == 0:
        cs = [1.0] + ([0.0] * 3 if per else q)
        fs = [comp(dim, lambda *x: cs[0] + 0 * x[0] + sum(c * y for c, y in zip(cs[1:], x)))]
    elif k == dim:
        if nmin(N) < 2 and not all('orthogonal' in str(a.etype(e)) or a.kind == 'msepy' for e in a.elems):
            return          # det J is not constant: the space with N=1 does not contain the constants
        fs = [comp(dim, lambda *x: 0 * x[0] + .7)]
    else:
        fs = [comp(dim, lambda *x, i=i: 0 * x[0] + q[i]) for i in range(dim)]
    cf = ph.vc.scalar(fs[0]) if len(fs) == 1 else ph.vc.vector(*fs)
    a.reduce(n, cf)
    good, R = rec.guard(kk + '|exact', a.rec, n, *other)
    if good:
        for e in a.elems:
            v = np.array([f(0.5, *R[e][0]) for f in fs])
            rec.close(R[e][1], v, 1e-9, kk + '|exact', f'reconstruct(reduce(f)) for f in the space, element {e}')
            rec.step()


def smooth(a, desc, N, other, rec, key):
    """reconstructions of reduced smooth fields approximate the field (absolute check of values and components)"""
    n_ = nmin(N)
    if n_ < 3 and not (desc['dim'] == 3 and n_ >= 2) and not isinstance(N, tuple):
        return
    for o, k, cf, _ in sequences(desc, 1):
        n = f'{o}{k}'
        if unsupported(a, k):
            continue
        a.reduce(n, cf)
        R = a.rec(n, *other)
        f0 = cf[0.5]
        for e in a.elems:
            ev = f0(*R[e][0])
            ev = np.array(ev if isinstance(ev, (list, tuple)) else [ev])
            tol = (0.06 if n_ >= 3 else 0.4) * (1 + np.abs(ev).max())
            if a.triangle(e):
                tol *= 3
            if period_of(desc) is not None:
                tol *= 4
            if curved(desc):
                tol *= 3
            rec.close(R[e][1], ev, tol, f'{key}|{n}|smooth', f'element {e}')
