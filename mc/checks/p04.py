"""Mass matrices, norms, errors, total mass and inner products against independent quadrature."""
from checks.common import *
from pull import *

ID = 'P04'
RULE = ('every mesh of the families and a zoo of cell shapes built together (perturbed, similar, rotated, rescaled cells, so '
        'that every pair of shapes meets in one process) x degree x orientation x form order; a state is one (mesh, degree, '
        'form, cell); the whole matrix (every pair of basis cochains) is compared')
ASSUMPTIONS = ['basis functions are taken from the reconstruction (decided by P03) on the same cell, metric terms from '
               'numerical differentiation of the mapping; the matrix has to equal the Gauss rule of at least the order the '
               'cell kind uses, or the nodal (lumped) rule on affine cells']


def tasks(tier):
    out = []
    for d in predefined2(tier) + refined2(tier) + fans(tier) + zoo(tier) + meshes3(tier) + mp.family(tier):
        for N in degrees_for(d, tier):
            if uniform_ok(d, N) and ('zoo' not in d['name'] or not isinstance(N, list)):
                out.append([d, N])
    for p in patches(tier)[::(2 if tier == 'quick' else 1)]:
        out.append([p, 2])
    return group(out)


class Cell:
    """numerical geometry of one cell"""

    def __init__(self, a, e, ti, hi):
        self.map = lambda *p: a.mapping(e, *p)
        self.ti = ti
        self.J0 = num_jac1(self.map, flat(*[ti.x] * a.dim))
        self.hi = hi
        self.J1 = num_jac1(self.map, hi.pts)
        self.det1 = np.abs(np.linalg.det(np.moveaxis(self.J1, 2, 0)))
        self.aff = bool(np.ptp(self.J1, axis=2).max() < 1e-7 * np.abs(self.J1).max())


class Rule:
    def __init__(self, ns, kind='G'):
        xs, ws = zip(*[leggauss(n) if kind == 'G' else lobatto(n) for n in ns])
        self.xs = xs
        self.pts = flat(*xs)
        w = np.meshgrid(*ws, indexing='ij')
        self.w = np.prod([q.ravel('F') for q in w], axis=0)


def lobatto(n):
    """n-point Gauss-Lobatto-Legendre"""
    P = np.polynomial.legendre.Legendre.basis(n - 1)
    x = np.concatenate([[-1.0], np.sort(P.deriv().roots().real), [1.0]])
    return x, 2 / (n * (n - 1) * P(x) ** 2)


def at_rule(cell, kd, ref, rule, ti):
    """values of the fields with reference components ref[(c), nb, m0] at the points of the rule"""
    B = ti.at(rule.pts)
    V = np.einsum('pm,cbm->cbp', B, ref)
    J = num_jac1(cell.map, rule.pts)
    det = np.abs(np.linalg.det(np.moveaxis(J, 2, 0)))
    out = np.stack([push(kd, J, V[:, b]) for b in range(V.shape[1])], axis=1)
    return out, det


def gram(vals, det, w):
    return np.einsum('cim,cjm,m->ij', vals, vals, det * w, optimize='optimal')


def run(task, rec):
    run_group(one, task, rec)


def one(task, rec):
    desc, N = task
    N = deg(N)
    key = f"{desc['name']}|{N}"
    good, a = rec.guard(key + '|build', impl.make, desc, N)
    if not good:
        return
    dim = desc['dim']
    P = deg_list(N, dim)
    ti = TensorInterp(max(P) + 2, dim)
    hi = Rule([p + (6 if dim < 3 else 4) for p in P])
    grid = [ti.x] * dim
    E = a.elems
    big = len(E) > 30
    rng = [np.sin(1 + 1.7 * i) for i in range(4000)]
    cells = {}
    forms = {}
    for o in ('inner', 'outer'):
        for k in range(dim + 1):
            n = f'{o}{k}'
            kk = f'{key}|{n}'
            if offered(a, n, rec) is False:
                continue
            kd = kind(o, k, dim)
            gm = a.gm(n)
            good, M_ = rec.guard(kk + '|mass', a.M, n)
            if not good:
                continue
            nb = max(len(gm[e]) for e in E)
            # basis functions by reconstruction of unit cochains
            B = {e: [] for e in E}
            for j in range(nb):
                a.put(n, {e: (np.arange(len(gm[e])) == j) * 1.0 for e in E})
                R = a.rec(n, *grid)
                for e in E:
                    if j < len(gm[e]):
                        B[e].append(R[e][1])
            cost = nb > 40
            chosen = E if not big and not cost else spread(a, 8 if dim < 3 else 4)
            total = {}
            for e in chosen:
                rec.state(key, n, e)
                if e not in cells:
                    cells[e] = Cell(a, e, ti, hi)
                c = cells[e]
                V = np.array(B[e]).transpose(1, 0, 2)          # comps, basis, points
                ref = np.stack([pull(kd, c.J0, V[:, b]) for b in range(V.shape[1])], axis=1)
                vals, det = at_rule(c, kd, ref, hi, ti)
                G = gram(vals, det, hi.w)
                sc = np.abs(G).max()
                m = M_[e]
                rec.step()
                rec.close(m, m.T, 1e-11 * sc, kk + '|symmetric', f'element {e}')
                lam = np.linalg.eigvalsh((m + m.T) / 2)
                rec.ok(lam.min() > 0, kk + '|positive', f'element {e}: smallest eigenvalue {lam.min()}')
                good = np.abs(m - G).max() <= 1e-6 * sc
                if not good:
                    good = any_rule(c, kd, ref, ti, P, m, sc, a, e)
                rec.ok(good, kk + '|mass', lambda: f'element {e} ({a.etype(e)}): mass matrix is not the L2 product of the '
                       f'basis forms, max rel. difference {np.abs(m - G).max() / sc:.3e}')
                total[e] = ref
            forms[n] = (o, k, kd, gm, M_, total)
    scalars(a, desc, N, key, forms, hi, cells, ti, rng, rec)
    rec.trace()
    rec.sample(dict(mesh=desc['name'], degree=N, elements=len(E)))


def spread(a, n):
    E = a.elems
    seen, out = set(), []
    for e in E:
        t = str(a.etype(e))
        if t not in seen:
            seen.add(t)
            out.append(e)
    st = max(1, len(E) // n)
    for e in E[::st]:
        if e not in out and len(out) < n:
            out.append(e)
    if E[-1] not in out:
        out.append(E[-1])
    return out


def any_rule(c, kd, ref, ti, P, m, sc, a, e):
    """the documented quadratures: Gauss with at least degree+1 (+2 where the cell is not affine) points, nodal rule on
    affine cells"""
    if c.aff:
        rules = [Rule([p + 1 for p in P], 'L')]
    else:
        rules = [Rule([p + q for p in P]) for q in (2, 3, 4, 5)]
    for r in rules:
        v, det = at_rule(c, kd, ref, r, ti)
        if np.abs(m - gram(v, det, r.w)).max() <= 1e-6 * sc:
            return True
    return False


def offered(a, n, rec):
    try:
        a.M(n)
    except NotImplementedError:
        rec.outcome('mass matrix not offered for this cell kind')
        return False
    k = int(n[-1])
    if a.kind == 'msehtt' and a.dim == 3 and any('hexahedron' in str(a.etype(e)) and 'ortho' not in str(a.etype(e)) for e in
                                                 a.elems):
        return False
    return True


def attempt(rec, key, fn):
    try:
        return True, fn()
    except NotImplementedError:
        rec.outcome(key.split('|')[-1] + ' not offered')
        return False, None
    except Exception as x:
        rec.bad(f'{key}:raise:{type(x).__name__}', repr(x))
        return False, None


class Quad:
    """the form with one cochain on the whole mesh, evaluated at the points of any rule"""

    def __init__(self, a, kd, ref, c, cells, ti, P):
        self.a, self.kd, self.ti, self.P, self.cells = a, kd, ti, P, cells
        self.ref = {e: np.einsum('cbm,b->cm', ref[e], c[e]) for e in ref}

    def on(self, rule):
        out = {}
        B = None
        for e, r in self.ref.items():
            c = self.cells[e]
            if id(rule) not in c.__dict__.setdefault('geo', {}):
                J = num_jac1(c.map, rule.pts)
                c.geo[id(rule)] = (J, np.abs(np.linalg.det(np.moveaxis(J, 2, 0))) * rule.w, np.array(c.map(*rule.pts)))
            J, dw, x = c.geo[id(rule)]
            if B is None:
                B = self.ti.at(rule.pts)
            out[e] = push(self.kd, J, r @ B.T), dw, x
        return out


def comps(cf, x):
    ev = cf[0.5](*x)
    return np.array([np.broadcast_to(q, x[0].shape) for q in (ev if isinstance(ev, (list, tuple)) else [ev])])


def decide(rec, key, what, got, fn, rules, tol=1e-6):
    """got equals fn(rule) for the accurate rule or one of the documented ones"""
    best = None
    for r in rules:
        w, sc = fn(r)
        d = float(np.max(np.abs(np.asarray(got) - np.asarray(w)))) / max(sc, 1e-300)
        if best is None or d < best[0]:
            best = d, w
        if d <= tol:
            break
    rec.step()
    rec.ok(best[0] <= tol, key, lambda: f'{what}: got {got}, want (nearest rule) {best[1]}, relative difference {best[0]:.3e}')


def scalars(a, desc, N, key, forms, hi, cells, ti, rng, rec):
    """norm, error, mass, inner products of generic cochains on the whole mesh"""
    dim = desc['dim']
    E = a.elems
    fields = {(o, k): cf for o, k, cf, _ in sequences(desc, 1)}
    dfields = {(o, k): d for o, k, _, d in sequences(desc, 1)}
    P = deg_list(deg(N), dim)
    rules = [hi] + [Rule([p + q for p in P]) for q in (3, 4, 2, 5)] + [Rule([p + 1 for p in P], 'L')]
    S = {}
    full = all(len(f[5]) == len(E) for f in forms.values())
    for n, (o, k, kd, gm, M_, ref) in forms.items():
        kk = f'{key}|{n}'
        c = {e: np.array([rng[7 * k + (g % 3000)] for g in gm[e]]) for e in E}
        a.put(n, c)
        F = a.forms[n]
        q = sum(c[e] @ M_[e] @ c[e] for e in E) ** 0.5
        good, v = attempt(rec, kk + '|norm', lambda: F[0.5].norm())
        if full:
            S[n] = Quad(a, kd, ref, c, cells, ti, P)

            def sq(r, i=slice(None)):
                s = sum((L[i] ** 2).sum(axis=0) @ dw if isinstance(i, slice) else L[i] ** 2 @ dw
                        for L, dw, x in S[n].on(r).values()) ** 0.5
                return s, s
        if good and not abs(v - q) <= 1e-10 * q:
            if full:
                decide(rec, kk + '|norm', f'norm (mass matrix gives {q})', v, sq, rules)
            else:
                rec.close(v, q, 0.2 * q, kk + '|norm', 'norm far from the one of the mass matrix')
        if not full:
            continue
        if a.kind == 'msehtt':
            good, v = attempt(rec, kk + '|component_wise', lambda: F[0.5].norm(component_wise=True))
            if good:
                if len(v) == 1 and abs(v[0] - q) <= 1e-10 * q:
                    rec.ok(True, kk)
                else:
                    for i in range(len(v)):
                        decide(rec, kk + '|component_wise', f'norm of component {i}', v[i], lambda r: sq(r, i), rules)
            if kd in ('scalar', 'density'):
                good, v = attempt(rec, kk + '|total', lambda: F[0.5].mass())
                if good:
                    decide(rec, kk + '|total', 'integral of the form', v,
                           lambda r: (sum(L[0] @ dw for L, dw, x in S[n].on(r).values()),
                                      sum(np.abs(L[0]) @ dw for L, dw, x in S[n].on(r).values())), rules)
        lin = linear_field(dim, 1 if kd in ('scalar', 'density') else dim)
        for nm, cf in (('linear', lin), ('smooth', fields[o, k])):
            def err():
                F.cf = cf
                return F[0.5].error()
            good, v = attempt(rec, kk + '|error', err)
            if good:
                def want(r):
                    w = sum(((L - comps(cf, x)) ** 2).sum(axis=0) @ dw for L, dw, x in S[n].on(r).values()) ** 0.5
                    return w, w
                decide(rec, kk + '|error', f'L2 error with respect to a {nm} field', v, want, rules)
        n1 = f'{o}{k + 1}'
        if a.kind == 'msehtt' and n1 in forms and dfields[o, k] is not None and dim > 1:
            E1 = a.cob(n)

            def derr():
                F.cf = fields[o, k]
                return F[0.5].error('L2'), F[0.5].error('d_L2'), F[0.5].error('H1')
            good, v = attempt(rec, kk + '|d_L2', derr)
            if good:
                D = Quad(a, forms[n1][2], forms[n1][5], E1, cells, ti, P)

                def want(r):
                    w = sum(((L - comps(dfields[o, k], x)) ** 2).sum(axis=0) @ dw for L, dw, x in D.on(r).values()) ** 0.5
                    return w, w
                # the framework differentiates the field numerically
                decide(rec, kk + '|d_L2', 'L2 error of the exterior derivative', v[1], want, rules, 1e-4)
                rec.close(v[2], (v[0] ** 2 + v[1] ** 2) ** 0.5, 1e-9 * v[2], kk + '|H1', 'H1 error')
    if not full or dim == 1:
        return
    vec = {}
    for n in forms:
        for m in forms:
            if (forms[n][2] in ('scalar', 'density')) != (forms[m][2] in ('scalar', 'density')):
                continue
            good, v = attempt(rec, f'{key}|{n}{m}|inner_product', lambda: a.forms[n][0.5].inner_product(a.forms[m][0.5]))
            if good:
                def want(r):
                    A, B = S[n].on(r), S[m].on(r)
                    return (sum((A[e][0] * B[e][0]).sum(axis=0) @ A[e][1] for e in E),
                            sum(np.abs(A[e][0] * B[e][0]).sum(axis=0) @ A[e][1] for e in E))
                decide(rec, f'{key}|{n}{m}|inner_product', f'inner product of {n} and {m}', v, want, rules)


def linear_field(dim, nc):
    co = [(0.3, 0.7, -0.4, 0.2), (-0.2, 0.5, 0.9, -0.6), (0.8, -0.3, 0.1, 0.4)]

    def f(i):
        a, b, c, d = co[i]
        if dim == 1:
            return lambda t, x: a + b * x
        if dim == 2:
            return lambda t, x, y: a + b * x + c * y
        return lambda t, x, y, z: a + b * x + c * y + d * z
    return ph.vc.scalar(f(0)) if nc == 1 else ph.vc.vector(*[f(i) for i in range(nc)])
