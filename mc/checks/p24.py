"""Coordinate transformations of cells and faces against finite differences of the mapping, and against the neighbours."""
from checks.common import *
from pull import num_jac1
from impl import flat

ID = 'P24'
RULE = ('every cell and every face of every mesh of the families (all cell kinds, rotations, numberings, periodic and refined '
        'meshes, zoo of shapes at three scales living in one process, both implementations) x two lattices of reference points '
        'including the boundary; every metric quantity at every point, every pair of cells sharing a face, every interior point '
        'against the point-location query')
ASSUMPTIONS = ['the mapping itself is the reference; its derivative is taken numerically (relative tolerance 1e-6)',
               'inverse quantities of triangles are compared away from the collapsed vertex']


def tasks(tier):
    out = list(predefined2(tier) + refined2(tier) + fans(tier) + zoo(tier) + meshes3(tier) + mp.family(tier))
    ps = patches(tier)
    n = 8
    out += [dict(group=ps[i::n], name=f'patches{i}') for i in range(n)]
    return out


def arr(q, shape):
    return np.broadcast_to(np.asarray(q, dtype=float), shape).astype(float)


def mat(q, m, n, shape):
    return np.array([[arr(q[i][j], shape) for j in range(n)] for i in range(m)])


def run(task, rec):
    for d in task.get('group', [task]):
        one(d, rec)


def one(desc, rec):
    key = desc['name']
    dim = desc['dim']
    good, a = rec.guard(key + '|build', impl.make, desc, 1)
    if not good:
        return
    nodes = [np.array([-1, -0.6, 0, 0.35, 1.0]), np.array([-0.99, 0.1, 0.77])]
    if dim == 3:
        nodes = [np.array([-1, 0, 0.4, 1.0]), np.array([-0.9, 0.3])]
    grids = [flat(*[q + 0.01 * k * (abs(q) < 1) for k in range(dim)]) for q in nodes]
    info = {}
    for rep in (0, 1):                     # the second round answers from whatever was kept of the first
        for e in a.elems:
            for gi, g in enumerate(grids):
                cell(a, e, g, dim, f'{key}', rec, rep)
    corners(a, dim, key, rec)
    faces(a, desc, dim, key, rec)
    if a.kind == 'msepy':
        whole(a, dim, grids, key, rec)
    else:
        locate(a, dim, key, rec)
    rec.trace()
    rec.sample(dict(mesh=key, cells=len(a.elems)))


QUANT = ('Jacobian_matrix', 'Jacobian', 'metric', 'metric_matrix', 'inverse_Jacobian_matrix', 'inverse_Jacobian',
         'inverse_metric_matrix')


def reference(mapping, g, dim, tri):
    J = num_jac1(mapping, g)
    A = np.moveaxis(J, 2, 0)
    det = np.linalg.det(A)
    G = np.einsum('kip,kjp->ijp', J, J)
    ok = np.ones(len(det), bool)
    if tri:
        ok = g[0] > -0.999
    iA = np.full_like(A, np.nan)
    iA[ok] = np.linalg.inv(A[ok])
    iJ = np.moveaxis(iA, 0, 2)
    iG = np.einsum('ikp,jkp->ijp', iJ, iJ)
    return dict(Jacobian_matrix=J, Jacobian=det, metric=det ** 2, metric_matrix=G, inverse_Jacobian_matrix=iJ,
                inverse_Jacobian=1 / det, inverse_metric_matrix=iG), ok


def cell(a, e, g, dim, key, rec, rep):
    ct = a.ct(e)
    tri = a.triangle(e)
    shape = g[0].shape
    mapping = lambda *p: a.mapping(e, *p)
    ref, ok = reference(mapping, g, dim, tri)
    rec.state(key, 'cell', e, len(g[0]))
    for q in QUANT:
        sel = ok if 'inverse' in q else np.ones_like(ok)
        good, v = rec.guard(f'{key}|{q}', getattr(ct, q), *[p.copy() for p in g])
        if not good:
            continue
        v = mat(v, dim, dim, shape) if 'matrix' in q else arr(v, shape)
        r = ref[q]
        sc = np.abs(r[..., sel]).max()
        # relative to the size at the point (inverses blow up towards a collapsed vertex)
        loc = np.abs(r[..., sel]).reshape(-1, sel.sum()).max(axis=0)
        d = np.abs(v - r)[..., sel].reshape(-1, sel.sum()).max(axis=0)
        tol = 2e-6 * (loc * (10 if tri else 1) if 'inverse' in q else sc) + 1e-30
        rec.step()
        rec.ok(bool(np.all(d <= tol)), f'{key}|{q}',
               lambda: f'element {e} ({a.etype(e)}), round {rep}: max rel. error {(d / np.maximum(tol, 1e-300)).max() * 2e-6:.3e}')
    rec.ok(bool(np.all(ref['Jacobian'][ok] * np.sign(ref['Jacobian'][ok][0]) > 0)), f'{key}|sign',
           f'element {e}: the Jacobian changes sign inside the cell')


def corner_table(a, e, dim):
    """local vertex -> reference corner, as documented for the cell kinds"""
    if dim == 3:
        return [(x, y, z) for z in (-1, 1) for y in (-1, 1) for x in (-1, 1)]
    return None


def corners(a, dim, key, rec):
    if a.kind == 'msepy':
        return
    el = a.tgm.elements
    where = {}
    for e in a.elems:
        E = el[e]
        fs = E.face_setting()
        if dim == 2:
            one = np.array([-1.0, 1.0])
            got = {}
            for i, (p, q) in fs.items():
                x, y = E.faces[i].ct.mapping(one)
                rec.step()
                for v, c in ((p, (x[0], y[0])), (q, (x[1], y[1]))):
                    c = np.array(c, dtype=float)
                    if v in got:
                        rec.close(got[v], c, 1e-9 * (1 + np.abs(c).max()), key + '|corner',
                                  f'element {e}: face {i} does not meet its neighbours in local vertex {v}')
                    got[v] = c
        else:
            got = {}
            for v, p in enumerate(corner_table(a, e, 3)):
                got[v] = np.array(E.ct.mapping(*[np.array([float(s)]) for s in p])).ravel()
        for v, c in got.items():
            where.setdefault(E.map_[v], []).append((e, c))
    if is_periodic(a.b.desc):
        return
    for v, l in where.items():
        rec.state(key, 'vertex', v)
        for e, c in l[1:]:
            rec.close(c, l[0][1], 2e-7, key + '|vertex', f'vertex {v} is at two places, seen from elements {l[0][0]} and {e}')
    cs = {v: l[0][1] for v, l in where.items()}
    pts = np.array(list(cs.values()))
    if len(pts) < 400 and '1e-5' not in key:
        d = np.linalg.norm(pts[:, None] - pts[None], axis=2) + np.eye(len(pts))
        rec.ok(d.min() > 1e-7, key + '|vertexdup', 'two vertex numbers at one place')


def faceset(a, e, dim):
    """face id -> (list of vertex numbers or None, face ct)"""
    if a.kind == 'msepy':
        ct = a.ct(e)
        return {(m, n): (None, ct.face(m, n)) for m in range(dim) for n in (0, 1)} if dim > 1 else {}
    E = a.tgm.elements[e]
    return {i: ([E.map_[v] for v in vs], E.faces[i].ct) for i, vs in E.face_setting().items()}


def fparams(a, dim, face, s):
    """s: list of dim-1 parameter arrays -> arguments of the face mapping"""
    if a.kind == 'msepy' or dim == 2:
        return s
    ax = face // 2
    r, t = s
    z = np.zeros_like(r)
    return {0: [z, r, t], 1: [t, z, r], 2: [r, t, z]}[ax]


def faces(a, desc, dim, key, rec):
    if dim == 1:
        return
    t = np.array([-1, -0.5, 0.0, 0.5, 1.0]) if dim == 2 else np.array([-1, 0.0, 1.0])
    s = flat(*[t] * (dim - 1))
    share = {}
    for e in a.elems:
        tri = a.triangle(e)
        for fi, (vs, fct) in faceset(a, e, dim).items():
            rec.state(key, 'face', e, fi)
            arg = fparams(a, dim, fi, s)
            good, X = rec.guard(key + '|facemap', fct.mapping, *[p.copy() for p in arg])
            if not good:
                continue
            X = np.array([arr(x, s[0].shape) for x in X])
            # trace: the face is where one reference coordinate is +-1
            if a.kind == 'msepy':
                ax, side = fi
            elif dim == 2:
                E = a.tgm.elements[e]
                ax, side = edge_axis(fi, tri)
            else:
                ax, side = fi // 2, fi % 2
            side = 1.0 if side else -1.0
            if dim == 2:
                full = [side * np.ones_like(s[0]), s[0]] if ax == 0 else [s[0], side * np.ones_like(s[0])]
            else:
                full = fparams_full(ax, side, s)
            Y = a.mapping(e, *full)
            size = np.ptp(Y, axis=1).max()
            # only the set of points matters here (which reference side carries the face is settled by the vertices)
            rec.close(match(X, Y), 0, 1e-9 * size + 1e-12 * (np.abs(Y).max() + 1), key + '|trace',
                      f'element {e} face {fi}: points of the face mapping are not on the side of the cell')
            # derivative of the face mapping
            good, JM = rec.guard(key + '|faceJ', fct.Jacobian_matrix, *[p.copy() for p in arg])
            if good:
                fm = lambda *p: np.array([arr(x, np.shape(p[0])) for x in fct.mapping(*fparams(a, dim, fi, list(p)))])
                R = num_jac1(fm, s) if dim == 3 else jac_curve(fm, s[0])
                if dim == 2:
                    V = np.array([arr(q, s[0].shape) for q in JM])[:, None]
                else:
                    V = mat(JM, 3, 2, s[0].shape)
                rec.close(V, R, 3e-6 * max(np.abs(R).max(), 1e-300), key + '|faceJ',
                          f'element {e} ({a.etype(e)}) face {fi}: Jacobian of the face mapping')
                good, n_ = rec.guard(key + '|normal', fct.outward_unit_normal_vector, *[p.copy() for p in arg])
                if good:
                    nv = np.array([arr(q, s[0].shape) for q in n_])
                    reg = np.ones(len(s[0]), bool)
                    rec.close((nv ** 2).sum(axis=0)[reg], 1, 1e-9, key + '|unit', f'element {e} face {fi}')
                    dots = np.einsum('ip,ijp->jp', nv, R)
                    rec.close(dots, 0, 3e-6 * np.abs(R).max(), key + '|orthogonal',
                              f'element {e} ({a.etype(e)}) face {fi}: normal is not orthogonal to the face')
                    # outward: a small step inside the cell goes against the normal
                    ins = [q.copy() for q in full]
                    ins[ax] = ins[ax] * (1 - 1e-3)
                    D = a.mapping(e, *ins) - Y
                    Yn = nearest(X, Y)
                    rec.ok(bool(np.all((nv[:, Yn] * D)[:, regular(tri, full)].sum(axis=0) < 0)), key + '|outward',
                           f'element {e} ({a.etype(e)}) face {fi}: normal does not point outwards')
                    plane(fct, nv, key, e, fi, rec, fm, dim)
            area(a, e, fi, fct, dim, key, rec)
            if vs is not None:
                share.setdefault(tuple(sorted(vs)), []).append((e, fi, X))
    per = is_periodic(desc) if a.kind != 'msepy' else True
    for vs, l in share.items():
        rec.ok(len(l) <= 2, key + '|shared', f'face {vs} belongs to {len(l)} cells')
        if len(l) < 2:
            continue
        (e0, f0, X), (e1, f1, Y) = l[:2]
        rec.step()
        if per:
            X = X - X.mean(axis=1, keepdims=True)
            Y = Y - Y.mean(axis=1, keepdims=True)
        size = np.ptp(X, axis=1).max()
        rec.close(match(X, Y), 0, 1e-8 * size + 2e-7 * (1 if np.abs(X).max() > 1e-3 else 0), key + '|conforming',
                  f'cells {e0} (face {f0}) and {e1} (face {f1}) do not agree on their shared face')


def edge_axis(fi, tri):
    if tri:
        return {0: (1, 0), 1: (0, 1), 2: (1, 1)}[fi]
    return None_axis[fi]


None_axis = {0: (0, 0), 1: (0, 1), 2: (1, 0), 3: (1, 1)}


def fparams_full(ax, side, s):
    o = side * np.ones_like(s[0])
    r, t = s
    return {0: [o, r, t], 1: [t, o, r], 2: [r, t, o]}[ax]


def match(X, Y):
    d = np.linalg.norm(X[:, :, None] - Y[:, None, :], axis=0)
    return np.array([d.min(axis=0).max(), d.min(axis=1).max()])


def nearest(X, Y):
    return np.linalg.norm(X[:, :, None] - Y[:, None, :], axis=0).argmin(axis=0)


def regular(tri, full):
    return (full[0] > -0.999) if tri else np.ones(len(full[0]), bool)


def jac_curve(fm, t, h=1e-5):
    return num_jac_1(fm, t, h)


def num_jac_1(fm, t, h):
    c = np.clip(t, -1 + 2 * h, 1 - 2 * h)
    d = (t - c) / h
    s = 0
    for k in (-2, -1, 0, 1, 2):
        oth = [m for m in (-2, -1, 0, 1, 2) if m != k]
        den = np.prod([k - m for m in oth])
        num = 0
        for drop in oth:
            q = 1.0
            for m in oth:
                if m != drop:
                    q = q * (d - m)
            num = num + q
        s = s + (num / den) * fm(c + k * h)
    return (s / h)[:, None, :]


def plane(fct, nv, key, e, fi, rec, fm, dim):
    if not hasattr(fct, 'is_plane'):
        return
    good, p = rec.guard(key + '|is_plane', fct.is_plane)
    if not good:
        return
    flatness = np.ptp(nv, axis=1).max()
    if flatness > 1e-3:
        rec.ok(not p, key + '|is_plane', f'element {e} face {fi}: curved (normals vary by {flatness}) but called plane')
    elif flatness < 1e-10:
        t = np.linspace(-1, 1, 9)
        s = flat(*[t] * (dim - 1))
        X = fm(*s)
        c = X - X[:, :1]
        off = np.abs(np.einsum('i,ip->p', nv[:, 0], c)).max()
        if off <= 1e-9 * np.ptp(X, axis=1).max():
            rec.ok(p, key + '|is_plane', f'element {e} face {fi}: plane but not called so')
            good, c = rec.guard(key + '|constant normal', lambda: fct.constant_outward_unit_normal_vector)
            if good:
                rec.close(c, nv[:, 0], 1e-6, key + '|constant normal', f'element {e} face {fi}')


def area(a, e, fi, fct, dim, key, rec):
    t, w = np.polynomial.legendre.leggauss(8)
    s = flat(*[t] * (dim - 1))
    if a.kind == 'msepy' or dim == 2:
        return
    F = a.tgm.elements[e].faces[fi]
    try:
        A = F.area
    except (NotImplementedError, AttributeError):
        rec.outcome('area not offered')
        return
    fm = lambda *p: np.array([arr(x, np.shape(p[0])) for x in fct.mapping(*fparams(a, dim, fi, list(p)))])
    R = num_jac1(fm, s)
    W = np.outer(w, w).ravel()
    exact = (np.linalg.norm(np.cross(R[:, 0].T, R[:, 1].T), axis=1) * W).sum()
    rec.close(A, exact, 1e-7 * exact, key + '|area', f'element {e} face {fi}')


def whole(a, dim, grids, key, rec):
    """msepy: the dictionary- and array-valued transformations of all the cells agree with those of one cell"""
    mesh = a.b.mesh
    g = grids[0]
    shape = g[0].shape
    good, X = rec.guard(key + '|mesh.ct.mapping', mesh.ct.mapping, *g)
    good2, Y = rec.guard(key + '|elements.ct.mapping', mesh.elements.ct.mapping, *g)
    for e in a.elems:
        ref = a.mapping(e, *g)
        if good:
            rec.close(np.array([arr(np.asarray(x)[..., e], shape) for x in X]), ref, 1e-10, key + '|mesh.ct.mapping', f'element {e}')
        if good2:
            rec.close(np.array([arr(x, shape) for x in Y[e]]), ref, 1e-10, key + '|elements.ct.mapping', f'element {e}')
    for q in QUANT:
        for nm, obj in (('elements.ct', mesh.elements.ct), ('mesh.ct', mesh.ct)):
            if not hasattr(obj, q):
                rec.outcome(f'{nm}.{q} not offered')
                continue
            for rep in (0, 1):
                good, D = rec.guard(f'{key}|{nm}.{q}', getattr(obj, q), *g)
                if not good:
                    continue
                for e in a.elems:
                    ref, ok = reference(lambda *p: a.mapping(e, *p), g, dim, False)
                    v = D[e] if isinstance(D, dict) else D(e)
                    v = mat(v, dim, dim, shape) if 'matrix' in q else arr(v, shape)
                    rec.step()
                    rec.close(v, ref[q], 3e-6 * np.abs(ref[q]).max(), f'{key}|{nm}.{q}', f'element {e}')
    for q, d in (('area', 2), ('volume', 3)):
        if dim == d and hasattr(mesh.elements, q):
            good, A = rec.guard(f'{key}|{q}', getattr(mesh.elements, q))
            if good:
                x, w = np.polynomial.legendre.leggauss(9)
                s = flat(*[x] * dim)
                W = np.prod([k.ravel('F') for k in np.meshgrid(*[w] * dim, indexing='ij')], axis=0)
                for e in a.elems:
                    ref, ok = reference(lambda *p: a.mapping(e, *p), s, dim, False)
                    ex = (np.abs(ref['Jacobian']) * W).sum()
                    rec.close(A[e], ex, (2e-3 if curved(a.b.desc) else 1e-7) * ex, f'{key}|{q}', f'element {e}')


def locate(a, dim, key, rec):
    """which cells contain a point"""
    el = a.b.mesh.composition if hasattr(a.b.mesh, 'composition') else a.b.tgm.elements
    if not hasattr(el, '_find_in_which_elements_') or is_periodic(a.b.desc):
        return
    lat = np.array([-0.9, -0.2, 0.5])
    for e in a.elems[:40]:
        for p in zip(*flat(*[lat] * dim)):
            x = [float(q) for q in a.mapping(e, *[np.array([s]) for s in p]).ravel()]
            try:
                got = el._find_in_which_elements_(*x)
            except (NotImplementedError, AssertionError) as ex:      # refused (cells below 1e-3)
                rec.outcome(f'point location refused: {ex}'[:60])
                return
            rec.step()
            rec.state(key, 'loc', e, tuple(p))
            rec.ok(list(got) == [e], key + '|locate', f'point {x} inside cell {e} is reported in {got}')
