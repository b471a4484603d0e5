"""Boundary sections, the dofs on them and integrals over them."""
import contextlib
import random
import traceback
import itertools
from checks.common import *
import phyem as ph
from problems import section_mesh
from phyem.tools.miscellaneous.geometries.m2n2 import Point2, StraightLine2, StraightSegment2, Polygon2, Curve2

ID = 'P05'
LEVEL = 'model_checking'
RULE = ('explicit enumeration, on the real code, of selections of the boundary of finite families of meshes: for msehtt every '
        'set of outward normals which occur, every straight line and every segment through two boundary vertices (and all '
        'pairs of some), every polygon with three (some with four or six) boundary vertices, curves, each also as an '
        'exception; for msepy every set of sides of regions; the faces found are compared with a classification by an '
        'independent geometry of the sides of the reference cells; for every section of a second enumeration x every '
        'degree x every form the dofs found are compared with those whose basis functions have a trace on the section, and '
        'boundary integrals and fluxes with integrals over the section for all basis functions; a state is one '
        '(mesh, criterion) or one (mesh, degree, form, section)')
ASSUMPTIONS = ('selections for which a boundary vertex is within rounding of the criterion without being on it are skipped; '
               'curved boundary sides are integrated by the library with few points, so integrals are only approximate there')

NSEC = 900


@contextlib.contextmanager
def trying(rec, key):
    try:
        yield
    except NotImplementedError:
        rec.outcome(f'refused:{key.split(":")[-1]}')
    except Exception as x:
        rec.bad(f'{key}:raise:{x.__class__.__name__}', traceback.format_exc()[-900:])


def tasks(tier):
    L = []
    for d in families(tier):
        L.append(dict(kind='sections', desc=d, tier=tier))
    fam = [d for d in families(tier)]
    for d in fam + (meshes3(tier)):
        for N in degrees(d, tier):
            if uniform_ok(d, N):
                L.append(dict(kind='dofs', desc=d, N=N, tier=tier))
    for d in meshes3(tier):
        L.append(dict(kind='sections', desc=d, tier=tier))
    for d in mp.family(tier):
        if d['dim'] > 1 and not d['kw'].get('periodic'):
            for N in degrees(d, tier):
                if uniform_ok(d, N):
                    L.append(dict(kind='pydofs', desc=d, N=N, tier=tier))
    return L


def degrees(d, tier):
    return [n for n in degrees_for(d, tier) if not (isinstance(n, list) and any(isinstance(x, list) for x in n))]


LSHAPE = tqr('Lshape', ['abed', 'bcfe', 'dehg', 'ghi'],
             dict(a=[0, 0], b=[1, 0], c=[2, 0], d=[0, 1], e=[1, 1], f=[2, 1], g=[0, 2], h=[1, 2], i=[0.5, 2.5]))
SKEW = tqr('skew', ['abed', 'bcfe', 'deh', 'hed'[::-1] if False else 'efi'],
           dict(a=[0, 0], b=[1, 0.5], c=[2, 1], d=[-0.5, 1], e=[0.6, 1.4], f=[1.5, 2.0], h=[0.0, 2.0], i=[1.0, 2.4]))
HOLE = tqr('hole', ['abfe', 'bcdg'[:0] or 'bcgf', 'cdhg', 'daeh'],
           dict(a=[0, 0], b=[3, 0], c=[3, 3], d=[0, 3], e=[1, 1], f=[2, 1], g=[2, 2], h=[1, 2]))
TWO = tqr('two', ['abcd', 'efgh', 'ijk'],
          dict(a=[0, 0], b=[1, 0], c=[1, 1], d=[0, 1], e=[2, 0], f=[3, 0], g=[3, 1], h=[2, 1], i=[0, 2], j=[1, 2],
               k=[0, 3]))


def families(tier):
    want = ('crazy1c0', 'crazy2c0', 'crazy2c0.1', 'crazyB', 'crazyBc', 'crazyWc0', 'chaotic0', 'rectangle', 'quad', 'bstep', 'cylinder',
            'meshpy', 'crazyP3c0.1')
    pre = [d for d in predefined2('thorough' if tier != 'quick' else 'quick') if d['name'] in want or tier != 'quick']
    ref = refined2(tier)
    if tier == 'quick':
        ref = ref[:2] + ref[-5:]
    fa = fans(tier)
    pa = patches(tier)
    if tier == 'quick':
        fa, pa = fa[::4], pa[::6]
    return [LSHAPE, SKEW, HOLE, TWO] + pre + ref + fa + pa


def run(task, rec):
    {'sections': sections, 'dofs': dofs, 'pydofs': pydofs}[task['kind']](task, rec)


# ------------------------------------------------------------------------------------------------ geometry

class Side:
    """a side of a reference cell, in space"""

    def __init__(self, G, e, axis, end):
        self.e, self.axis, self.end = e, axis, end
        self.dim = G.dim
        ct = G.ct(e)
        if G.dim == 2:
            s = np.linspace(-1, 1, 97)
            r = [s, s]
            r[axis] = 0 * s + end
            self.pts = np.array(ct.mapping(*r)).T
            self.keyp = self.pts[[0, -1, 48]]
            r[axis] = r[axis] * (1 - 1e-4)
            self.inside = np.array(ct.mapping(*r)).T[48]
            self.size = np.linalg.norm(np.diff(self.pts, axis=0), axis=1).sum()
        else:
            s = np.linspace(-1, 1, 9)
            g = np.array([x.ravel() for x in np.meshgrid(s, s)])
            r = [None] * 3
            o = [a for a in range(3) if a != axis]
            r[o[0]], r[o[1]] = g
            r[axis] = 0 * g[0] + end
            self.pts = np.array(ct.mapping(*r)).T
            self.keyp = self.pts[[0, 8, 72, 80, 40]]
            r[axis] = r[axis] * (1 - 1e-4)
            self.inside = np.array(ct.mapping(*r)).T[40]
            self.size = np.linalg.norm(self.keyp[0] - self.keyp[3])
        self._n = None

    @property
    def normal(self):
        """the outward unit normal when the side is plane, else None"""
        if self._n is None:
            if self.dim == 2:
                a, b, m = self.keyp
                t = (b - a) / np.linalg.norm(b - a)
                n = np.array([t[1], -t[0]])
            else:
                a, b, c = self.keyp[:3]
                n = np.cross(b - a, c - a)
                n = n / np.linalg.norm(n)
            dev = np.abs((self.pts - self.pts[0]) @ n).max() / self.size
            if (self.keyp[-1] - self.inside) @ n < 0:
                n = -n
            self._n = (n, dev)
        n, dev = self._n
        return n if dev < 1e-8 else None

    @property
    def crooked(self):
        self.normal
        return self._n[1]


class Geo:
    def __init__(self, dim, elems, ct, desc):
        self.dim, self.elems, self.ct, self.desc = dim, elems, ct, desc
        S = []
        for e in elems:
            ss = [Side(self, e, a, s) for a in range(dim) for s in (-1, 1)]
            big = max(s.size for s in ss)
            S += [s for s in ss if s.size > 1e-9 * big]
        self.sides = S
        per = period_of(desc)
        lo = None
        if per is not None:
            lo = np.min([s.pts.min(0) for s in S], axis=0)
        K = []
        for s in S:
            k = s.keyp
            if per is not None:
                k = (k - lo) / np.array(per)
                k = k - np.floor(k + 1e-6)
            K.append(k)
        K = np.array(K)
        self.boundary = []
        scale = np.array([s.size for s in S])
        for i, s in enumerate(S):
            alone = True
            mid = np.linalg.norm(K[:, -1] - K[i, -1], axis=1) < 0.25 * scale
            for j in np.nonzero(mid)[0]:
                if j != i and same_points(K[i], K[j], 1e-5 * (scale[i] if per is None else 1)):
                    alone = False
                    break
            if alone:
                self.boundary.append(s)

    def find(self, e, pts):
        """the boundary side of cell e with these vertices (index), or None"""
        for i, s in enumerate(self.boundary):
            if s.e == e and same_corners(s, pts):
                return i
        return None


def same_points(a, b, tol):
    if np.linalg.norm(a[-1] - b[-1]) > 100 * tol:
        return False
    d = np.linalg.norm(a[:-1, None] - b[None, :-1], axis=2)
    return bool((d.min(0) < tol).all() and (d.min(1) < tol).all())


def same_corners(s, pts):
    a = s.keyp[:-1]
    d = np.linalg.norm(a[:, None] - np.asarray(pts)[None], axis=2)
    return bool((d.min(0) < 1e-6 * s.size).all() and (d.min(1) < 1e-6 * s.size).all())


def face_corners(face, dim):
    if dim == 2:
        return np.array(face.ct.mapping(np.array([-1., 1.]))).T
    a, b, c = np.meshgrid([-1., 1.], [-1., 1.], [-1., 1.], indexing='ij')
    P = np.array(face.ct.mapping(a.ravel(), b.ravel(), c.ravel())).T
    out = []
    for p in P:
        if not any(np.linalg.norm(p - q) < 1e-9 for q in out):
            out.append(p)
    return np.array(out)


# ------------------------------------------------------------------------------------------------ criteria (independent)

ON, OFF = 1e-7, 4e-3           # nearer: on; farther (relative to the mesh size): off; between: no statement


def verdict(dev):
    """dev: largest distance from the criterion of the samples of a side"""
    return True if dev < ON else False if dev > OFF else None


def on_line(s, p, q):
    p, q = np.array(p, float), np.array(q, float)
    t = (q - p) / np.linalg.norm(q - p)
    n = np.array([-t[1], t[0]])
    return verdict(np.abs((s.pts - p) @ n).max())


def seg_dist(pts, p, q):
    p, q = np.array(p, float), np.array(q, float)
    d = q - p
    t = np.clip(((pts - p) @ d) / (d @ d), 0, 1)
    return np.linalg.norm(pts - (p + t[:, None] * d), axis=1)


def on_segment(s, p, q):
    return verdict(seg_dist(s.pts, p, q).max())


def in_polygon(s, vs):
    V = np.array(vs, float)
    x, y = s.pts.T
    edge = np.min([seg_dist(s.pts, V[i - 1], V[i]) for i in range(len(V))], axis=0)
    ins = np.zeros(len(x), bool)
    for i in range(len(V)):
        (x0, y0), (x1, y1) = V[i - 1], V[i]
        if y0 == y1:
            continue
        c = (y0 > y) != (y1 > y)
        ins ^= c & (x < (x1 - x0) * (y - y0) / (y1 - y0) + x0)
    good = ins | (edge < ON)
    if good.all():
        return True
    # the side leaves the polygon: seen by the 13 samples of the library?
    bad = ~good & (edge > OFF)
    if bad[::8].any():
        return False
    return None


def on_curve(s, f, x0, x1):
    x, y = s.pts.T
    if ((x < x0 - 1e-12) | (x > x1 + 1e-12)).any():
        return False if ((x < x0 - OFF) | (x > x1 + OFF)).any() else None
    return verdict(np.abs(y - f(x)).max())


# ------------------------------------------------------------------------------------------------ msehtt

class Htt:
    def __init__(self, desc, N, nsec, orientations=('inner', 'outer')):
        dim = desc['dim']
        random.seed(desc.get('seed', 0))
        np.random.seed(desc.get('seed', 0))
        ph.config.set_embedding_space_dim(dim)
        Mf = ph.manifold(dim)
        m = ph.mesh(Mf)
        ph.space.set_mesh(m)
        fs = {}
        for o in orientations:
            for k in range(dim + 1):
                fs[f'{o}{k}'] = ph.space.new('Lambda', k, orientation=o).make_form(r'f^{%d}_{%s}' % (k, o), f'f{k}{o}')
        self.whole = m.boundary()
        names = [r'\Gamma_{%d}' % i for i in range(nsec)]
        m.boundary_partition(*names)
        ph.space.finite(N)
        fem, obj = ph.fem.apply('msehtt', dict(fs))
        ind, kw = meshes_indicator(desc)
        fem.config('tgm')(ind, **kw)
        self.fem, self.tgm = fem, fem.base['the_great_mesh']
        self.mesh = fem.base['meshes'][m._sym_repr]
        fem.config(self.mesh)(self.tgm, including='all')
        self.forms = {k: fem.base['forms'][f._pure_lin_repr] for k, f in fs.items()}
        self.bm = {x.abstract.manifold._sym_repr: x for x in fem.base['meshes'].values()}
        self.names = names
        self.i = 0
        self.dim = dim
        self.elems = list(self.tgm.elements)
        self.desc = desc
        self.geo = Geo(dim, self.elems, lambda e: self.tgm.elements[e].ct, desc)

    def boundary(self):
        b = self.fem.base['meshes'][self.whole._sym_repr]
        self.fem.config(b)(self.tgm, including=self.mesh)
        return b

    def section(self, **crit):
        b = self.bm[self.names[self.i]]
        self.i += 1
        self.fem.config(b)(self.tgm, including={'type': 'boundary_section', 'partial elements': self.mesh, **crit})
        return b

    def left(self):
        return len(self.names) - self.i

    def faces(self, b):
        """indices of the boundary sides in a section, None for a face which is not on the boundary"""
        out = []
        for ef in b.composition:
            face = b.composition[ef]
            out.append(self.geo.find(ef[0], face_corners(face, self.dim)))
        return out


def meshes_indicator(desc):
    import meshes
    return meshes.indicator(desc)


def neat(G, n):
    """boundary vertices, at most n of them, evenly"""
    V = []
    for s in G.boundary:
        for p in s.keyp[:2]:
            if not any(np.linalg.norm(p - q) < 1e-9 for q in V):
                V.append(p)
    if len(V) > n:
        V = [V[i] for i in sorted({int(round(k * (len(V) - 1) / (n - 1))) for k in range(n)})]
    return [(float(np.round(x, 12)), float(np.round(y, 12))) for x, y in V]


def sections(task, rec):
    desc, tier = task['desc'], task['tier']
    N = 1 if desc['dim'] == 2 else 1
    A = Htt(desc, N, NSEC)
    nm = desc['name']
    G = A.geo
    nb = len(G.boundary)
    rec.state(nm)
    w = A.boundary()
    fw = A.faces(w)
    rec.ok(None not in fw and sorted(fw) == list(range(nb)), f'{nm}:whole',
           f'the boundary has {nb} faces, the section of all of them has {sorted(map(str, fw))[:40]}')

    def both(word, spec, want, key):
        """the section by a criterion and its complement; want: per boundary side True, False or None (no statement)"""
        for ex in (False, True):
            if A.left() == 0:
                rec.outcome('no more sections')
                return
            rec.state(nm, key, ex)
            with trying(rec, f'{nm}:{key}{"-except" if ex else ""}'):
                b = A.section(**{('except ' if ex else '') + word: spec})
                got = A.faces(b)
                rec.step(nb)
                ok = None not in got and len(set(got)) == len(got) == len(b.composition)
                bad = []
                if ok:
                    for i, v in enumerate(want):
                        if v is not None and ((i in got) == ex) == v:
                            bad.append(i)
                rec.ok(ok and not bad, f'{nm}:{key}{"-except" if ex else ""}',
                       f'section by {"except " if ex else ""}{word} {spec}: faces {got}, wrong about '
                       f'{[(i, np.round(G.boundary[i].keyp, 4).tolist()) for i in bad[:4]]}')
                rec.outcome(f'{word}:{"none" if not got else "all" if len(got) == nb else "some"}')

    # normals
    nrm = []
    amb = [s for s in G.boundary if s.normal is None and s.crooked < 1e-3]
    for s in G.boundary:
        if s.normal is not None and not any(np.abs(s.normal - x).max() < 1e-5 for x in nrm):
            nrm.append(s.normal)
    for a, b in itertools.combinations(nrm, 2):
        if np.abs(a - b).max() < 1e-3:
            amb.append(None)
    if not amb and all(np.abs(np.abs(x * 1e6) % 1 - 0.5).min() > 0.01 for x in nrm):
        for vs in (np.eye(A.dim).tolist() + (-np.eye(A.dim)).tolist()):
            if not any(np.abs(np.array(vs) - x).max() < 1e-3 for x in nrm):
                nrm.append(np.array(vs))
        sets = []
        top = 4 if len(nrm) <= 6 else 2
        for r in range(1, top + 1):
            sets += list(itertools.combinations(range(len(nrm)), r))
        for st in sets[:80]:
            want = [s.normal is not None and any(np.abs(s.normal - nrm[i]).max() < 1e-5 for i in st) for s in G.boundary]
            spec = [[float(x) for x in nrm[i]] for i in st]
            if len(st) == 1:
                both('ounv', tuple(spec[0]), want, f'ounv{st}')
            both('ounv', spec, want, f'ounvs{st}')
    if A.dim != 2:
        return
    if not nb:
        return
    V = neat(G, 8 if tier == 'quick' else 11)
    far = [(a, b) for a, b in itertools.combinations(V, 2) if np.hypot(a[0] - b[0], a[1] - b[1]) > 0.05]
    spell = [lambda p, q: (p, q), lambda p, q: [Point2(*p), Point2(*q)]]
    some = {}
    for word, cls, pred in (('on straight lines', StraightLine2, on_line), ('on straight segments', StraightSegment2, on_segment)):
        W = []
        for i, (p, q) in enumerate(far):
            want = [pred(s, p, q) for s in G.boundary]
            W.append(want)
            sp_ = spell[i % 2](p, q) if i % 3 else cls(Point2(*q), Point2(*p))
            if i < 45:
                both(word, [sp_], want, f'{word}{i}')
        # all pairs of those which catch something
        some[word] = [i for i, w_ in enumerate(W) if any(w_)][:7]
        for i, j in itertools.combinations(some[word], 2):
            both(word, (spell[0](*far[i]), spell[1](*far[j])), [any3(a, b) for a, b in zip(W[i], W[j])], f'{word}{i},{j}')
    # polygons
    polys = list(itertools.combinations(V, 3))[:: max(1, len(V) ** 3 // 6 // 40)]
    box = np.array(V)
    (x0, y0), (x1, y1) = box.min(0) - 0.1, box.max(0) + 0.1
    xm, ym = box.mean(0) + 0.0123
    polys += [[(x0, y0), (xm, y0), (xm, y1), (x0, y1)], [(x0, y0), (x1, y0), (x1, ym), (x0, ym)],
              [(x0, y0), (x1, y0), (x1, ym), (xm, ym), (xm, y1), (x0, y1)],
              [(x0, y0), (x0, y1), (x1, y1), (x1, ym), (xm, ym), (xm, y0)],
              [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]]
    PW = []
    for i, vs in enumerate(polys):
        a = 0.5 * abs(sum(vs[k - 1][0] * vs[k][1] - vs[k][0] * vs[k - 1][1] for k in range(len(vs))))
        if a < 1e-3:
            continue
        want = [in_polygon(s, vs) for s in G.boundary]
        PW.append((vs, want))
        both('in polygons', Polygon2(*[Point2(*v) for v in vs]) if i % 2 else [Polygon2(*[Point2(*v) for v in vs])], want,
             f'polygon{i}')
    for (va, wa), (vb, wb) in itertools.combinations(PW[-4:], 2):
        both('in polygons', [Polygon2(*[Point2(*v) for v in va]), Polygon2(*[Point2(*v) for v in vb])],
             [any3(a, b) for a, b in zip(wa, wb)], f'polygons')
    # curves
    cs = []
    for p, q in far:
        if abs(p[0] - q[0]) > 0.05:
            if p[0] > q[0]:
                p, q = q, p
            sl = (q[1] - p[1]) / (q[0] - p[0])
            cs.append((lambda x, p=p, sl=sl: p[1] + sl * (x - p[0]), p[0], q[0]))
    if desc['cfg'] == 'cylinder_channel':
        pass
    CW = []
    for i, (f, a, b) in enumerate(cs[:14]):
        for ext in (0.0, 0.013):
            want = [on_curve(s, f, a - ext, b + ext) for s in G.boundary]
            if i % 2 == 0:
                C = Curve2(lambda t: t, f, [a - ext, b + ext])
            else:           # the other way round, at another speed
                C = Curve2(lambda t: -2. * t, lambda t, f=f: f(-2. * t), [-(b + ext) / 2, -(a - ext) / 2])
            both('on curves', [C], want, f'curve{i}x{ext}')


def any3(a, b):
    return True if a or b else None if a is None or b is None else False


# ------------------------------------------------------------------------------------------------ dofs and integrals

VC = {
    (2, 's'): [ph.vc.scalar(lambda t, x, y: 1 + 0 * x), ph.vc.scalar(lambda t, x, y: t + 0.3 * x - 1.7 * y)],
    (2, 'v'): [ph.vc.vector(lambda t, x, y: 1 + 0 * x, lambda t, x, y: 0 * x),
               ph.vc.vector(lambda t, x, y: 0.4 * y - t + x, lambda t, x, y: 2.1 - x * t + 0.3 * y)],
    (3, 's'): [ph.vc.scalar(lambda t, x, y, z: t + 0.3 * x - 1.7 * y + 0.6 * z)],
    (3, 'v'): [ph.vc.vector(lambda t, x, y, z: 0.4 * y - t + x, lambda t, x, y, z: 2.1 - z * t, lambda t, x, y, z: 1.1 + y - x)],
}


class Traces:
    """traces of all basis functions on the boundary sides"""

    def __init__(self, G, jm, rm, forms, orient, n):
        self.G, self.rm, self.forms = G, rm, forms
        self.x, self.w = np.polynomial.legendre.leggauss(n)
        self.cache = {}
        self.jm = jm

    def metric(self, i):
        if ('m', i) in self.cache:
            return self.cache['m', i]
        s = self.G.boundary[i]
        dim = self.G.dim
        grid = [self.x] * dim
        grid = [np.array([float(s.end)]) if a == s.axis else self.x for a in range(dim)]
        q = flat(*grid)
        J = self.jm(s.e, q)                                         # [space][ref] arrays
        J = np.array([[np.ones(len(q[0])) * c for c in r] for r in J])
        free = [a for a in range(dim) if a != s.axis]
        if dim == 2:
            t = J[:, free[0]]
            n = np.array([t[1], -t[0]])
            w = self.w
        else:
            n = np.cross(J[:, free[0]].T, J[:, free[1]].T).T
            w = np.multiply.outer(self.w, self.w).ravel('F')
        meas = np.linalg.norm(n, axis=0)
        n = n / meas
        sg = np.sign((n * J[:, s.axis]).sum(0) * s.end)
        n = n * sg
        xyz = np.array(self.G.ct(s.e).mapping(*q))
        self.cache['m', i] = grid, n, meas * w, xyz
        return self.cache['m', i]

    def basis(self, name, i):
        """[component] (points x dofs)"""
        s = self.G.boundary[i]
        key = (name, s.axis, s.end)
        if key not in self.cache:
            self.cache[key] = self.rm(name, *self.metric(i)[0])
        return self.cache[key][s.e]

    def trace(self, name, k, o, i):
        """the components of the trace: lists of (points x dofs)"""
        B = self.basis(name, i)
        n = self.metric(i)[1][:, :, None]
        dim = self.G.dim
        if k == 0:
            return [B[0]]
        if dim == 2:
            return [B[0] * n[0] + B[1] * n[1]] if o == 'outer' else [B[1] * n[0] - B[0] * n[1]]
        if k == 2:
            return [B[0] * n[0] + B[1] * n[1] + B[2] * n[2]]
        return [B[1] * n[2] - B[2] * n[1], B[2] * n[0] - B[0] * n[2], B[0] * n[1] - B[1] * n[0]]

    def support(self, name, k, o, i):
        """local dofs whose basis functions have a trace on side i"""
        key = ('s', name, i)
        if key not in self.cache:
            T = np.max([np.abs(c).max(0) for c in self.trace(name, k, o, i)], axis=0)
            self.cache[key] = [int(j) for j in np.nonzero(T > 1e-7 * T.max())[0]]
        return self.cache[key]

    def integral(self, name, k, o, i, vc, t):
        _, n, w, X = self.metric(i)
        V = [np.ones(len(w)) * c for c in vc[t](*X)]
        B = self.basis(name, i)
        dim = self.G.dim
        if k == 0:
            s = V[0] * n[1] - V[1] * n[0] if dim == 2 and o == 'outer' else sum(a * b for a, b in zip(V, n))
            return (B[0] * (s * w)[:, None]).sum(0)
        if dim == 2 or k == 2:
            return (self.trace(name, k, o, i)[0] * (V[0] * w)[:, None]).sum(0)
        C = np.cross(np.array(V).T, n.T).T
        return sum((B[c] * (C[c] * w)[:, None]).sum(0) for c in range(3))

    def flux(self, name, i):
        _, n, w, X = self.metric(i)
        B = self.basis(name, i)
        return sum((B[c] * (n[c] * w)[:, None]).sum(0) for c in range(2))


BI_TYPES = {'orthogonal rectangle', 'unique msepy curvilinear quadrilateral', 9, 'orthogonal hexahedron',
            'unique msepy curvilinear hexahedron'}


def dofs(task, rec):
    desc, N, tier = task['desc'], deg(task['N']), task['tier']
    A = Htt(desc, N, 40)
    G, dim = A.geo, A.dim
    nm = f"{desc['name']}:N{task['N']}"
    nb = len(G.boundary)
    S = {'whole': A.boundary()}
    nrm = []
    for s in G.boundary:
        if s.normal is not None and not any(np.abs(s.normal - x).max() < 1e-3 for x in nrm):
            nrm.append(s.normal)
    for i, x in enumerate(nrm[:6]):
        S[f'n{i}'] = A.section(ounv=tuple(float(v) for v in x))
    for i, j in list(itertools.combinations(range(min(6, len(nrm))), 2))[:6]:
        S[f'n{i},{j}'] = A.section(**{'except ounv': [[float(v) for v in nrm[i]], [float(v) for v in nrm[j]]]})
    if dim == 2:
        straight = [s for s in G.boundary if s.normal is not None]
        for i, s in enumerate(straight[:8]):
            S[f's{i}'] = A.section(**{'on straight segments': [tuple(map(tuple, s.keyp[:2].tolist()))]})

    tri = any(A.tgm.elements[e].etype not in BI_TYPES for e in A.elems)

    def rm(name, *grid):
        F = A.forms[name]
        if not tri:
            R = F.reconstruction_matrix(*grid)
            return {e: [dense(c[e]) for c in R] for e in A.elems}
        # no reconstruction matrices for triangles: all basis cochains
        gm = F.cochain.gathering_matrix
        num = {e: len(np.asarray(gm[e])) for e in A.elems}
        out = {e: None for e in A.elems}
        for j in range(max(num.values())):
            F[0.25].cochain = {e: np.array([float(i == j) for i in range(num[e])]) for e in A.elems}
            _, v = F[0.25].reconstruct(*grid, ravel=True)
            for e in A.elems:
                if out[e] is None:
                    out[e] = [np.zeros((len(c[e]), num[e])) for c in v]
                if j < num[e]:
                    for c, x in enumerate(v):
                        out[e][c][:, j] = x[e]
        return out
    T = Traces(G, lambda e, q: A.tgm.elements[e].ct.Jacobian_matrix(*q), rm, A.forms, None, max(deg_list(N, dim)) + 6)
    sec = {}
    for k, b in S.items():
        f = A.faces(b)
        if None in f:
            rec.bad(f'{nm}:{k}:faces', 'a face of the section is not on the boundary')
            continue
        sec[k] = (b, f)
    on_faces(rec, nm, A, T, sec, dim, N, htt=True, exact=lambda i: G.boundary[i].normal is not None)


def on_faces(rec, nm, A, T, sec, dim, N, htt, exact):
    G = A.geo
    t = 0.6
    for fn, F in A.forms.items():
        o, k = fn[:5], int(fn[5:])
        if k == dim:
            continue
        g = A.gm(fn) if not htt else {e: np.asarray(F.cochain.gathering_matrix[e]) for e in A.elems}
        for sn, (b, fs) in sec.items():
            key = f'{nm}:{fn}:{sn}'
            rec.state(key)
            loc = {}
            for i in fs:
                loc.setdefault(G.boundary[i].e, set()).update(T.support(fn, k, o, i))
            glob = sorted({int(g[e][j]) for e in loc for j in loc[e]})
            with trying(rec, key + ':dofs'):
                for rep in range(2):        # twice: the second time from the cache
                    if htt:
                        got = b.find_dofs(F, local=True)
                        got = {e: sorted(int(x) for x in v) for e, v in got.items() if len(v)}
                        rec.ok(got == {e: sorted(v) for e, v in loc.items()}, key + ':local',
                               f'local dofs on the section: {str(got)[:160]}, with a trace there: {str(loc)[:160]}')
                        gl = [int(x) for x in b.find_dofs(F, local=False)]
                        rec.ok(gl == glob, key + ':global', f'global dofs {gl[:60]} != {glob[:60]}')
                    else:
                        gl = [int(x) for x in b.find_boundary_objects(F, 'gathering_matrix')]
                        rec.ok(sorted(set(gl)) == glob, key + ':global', f'global dofs {sorted(set(gl))[:60]} != {glob[:60]}')
                        own = np.arange(sum(len(g[e]) for e in A.elems)).reshape(len(A.elems), -1)
                        lo = {int(x) for x in b.find_boundary_objects(F, own)}
                        rec.ok(lo == {int(own[e][j]) for e in loc for j in loc[e]}, key + ':local', 'local dofs')
                    rec.step()
            # integrals
            kind = 's' if (k == dim - 1) else 'v'
            if not htt or all(A.tgm.elements[G.boundary[i].e].etype in BI_TYPES for i in fs):
                for vi, vc in enumerate(VC[dim, kind]):
                    want = {}
                    for i in fs:
                        e = G.boundary[i].e
                        want[e] = want.get(e, 0) + T.integral(fn, k, o, i, vc, t)
                    with trying(rec, f'{key}:bi{vi}'):
                        try:
                            r = F.bi.with_vc_over_boundary_section(t, vc, b) if htt else \
                                F.boundary_integrate.with_vc_over_boundary_section(t, vc, b)
                        except NotImplementedError:
                            rec.outcome('bi:refused')
                            continue
                        rec.outcome('bi:done')
                        sc = max([np.abs(v).max() for v in want.values()] + [1e-3])
                        tol = 1e-9 if all(exact(i) for i in fs) else 5e-2 if nmin(N) < 3 else 5e-3
                        for e in A.elems:
                            have = np.asarray(r[e]) if (e in r if htt else True) else 0
                            rec.close(have, want.get(e, 0 * have), tol * sc, f'{key}:bi{vi}',
                                      f'integral of field {vi} over the section against the basis functions of cell {e}')
                        rec.step()
            if htt and dim == 2 and k == 1:
                C = {}
                rng = np.random.RandomState(5)
                vec = rng.rand(max(int(x.max()) for x in g.values()) + 1) - 0.3
                want = 0.
                for i in fs:
                    e = G.boundary[i].e
                    want += T.flux(fn, i) @ vec[g[e]]
                with trying(rec, key + ':flux'):
                    try:
                        F[t].cochain = {e: vec[g[e]] for e in A.elems}
                        r = F[t].flux_over_boundary_section(b, quad_degree=max(deg_list(N, 2)) + 3)
                    except NotImplementedError:
                        rec.outcome('flux:refused')
                        continue
                    rec.outcome('flux:done')
                    rec.close(r, want, (1e-8 if all(exact(i) for i in fs) else 5e-2) * (1 + abs(want)), key + ':flux',
                              'flux over the section')
    rec.outcome(f'sections:{len(sec)}')


# ------------------------------------------------------------------------------------------------ msepy

class Py:
    def __init__(self, desc, N, choose, n):
        dim = desc['dim']
        ph.config.set_embedding_space_dim(dim)
        M_ = ph.manifold(dim)
        m = ph.mesh(M_)
        ph.space.set_mesh(m)
        fs = {}
        for o in ('inner', 'outer'):
            for k in range(dim + 1):
                fs[f'{o}{k}'] = ph.space.new('Lambda', k, orientation=o).make_form(r'f^{%d}_{%s}' % (k, o), f'f{k}{o}')
        m.boundary()
        names = [r'\Gamma_{%d}' % i for i in range(2 * n)]
        for i in range(n):
            m.boundary_partition(names[2 * i], names[2 * i + 1])
        ph.space.finite(N)
        fem, obj = ph.fem.apply('msepy', dict(M=M_, m=m, **fs))
        fem.config(obj['M'])(desc['domain'], **desc['kw'])
        rm_ = obj['M'].regions.map
        self.sides = [(r, j) for r in rm_ for j, x in enumerate(rm_[r]) if x is None]
        self.chosen = {}
        ch = choose(self.sides)
        for i, st in enumerate((ch * n)[:n]):
            d = {}
            for r, j in st:
                d.setdefault(r, [0] * (2 * dim))[j] = 1
            fem.config(fem.base['manifolds'][names[2 * i]])(obj['M'], d)
            self.chosen[names[2 * i]] = st
            self.chosen[names[2 * i + 1]] = [x for x in self.sides if x not in st]
        self.M, self.mesh, self.fem = obj['M'], obj['m'], fem
        fem.config(self.mesh)(desc['layout'])
        self.forms = {k: obj[k] for k in fs}
        self.dim = dim
        self.elems = list(range(len(self.mesh.elements)))
        self.geo = Geo(dim, self.elems, lambda e: self.mesh.elements[e].ct, desc)
        self.whole = fem.base['manifolds'][m.boundary().manifold._sym_repr]
        for s in self.geo.boundary:
            s.region = self.region_side(s)

    def region_side(self, s):
        # the side of the region, by the geometry of the region
        dim = self.dim
        best = None
        for r, j in self.sides:
            a, end = j // 2, j % 2
            for p in np.linspace(0, 1, 201) if dim == 2 else [0.5]:
                pass
            P = self.region_points(r, a, end)
            d = max(np.linalg.norm(P - q, axis=1).min() for q in s.pts[:: len(s.pts) // 8])
            if best is None or d < best[0]:
                best = d, (r, j)
        return best[1]

    def region_points(self, r, a, end):
        k = (r, a, end)
        if not hasattr(self, '_rp'):
            self._rp = {}
        if k not in self._rp:
            u = np.linspace(0, 1, 4001 if self.dim == 2 else 121)
            g = [x.ravel() for x in np.meshgrid(*[u] * (self.dim - 1))]
            q = []
            for b in range(self.dim):
                q.append(0 * g[0] + end if b == a else g[len(q) if b < a else b - 1])
            self._rp[k] = np.array(self.M.ct.mapping(*q, regions=r)[r]).T
        return self._rp[k]

    def section(self, name):
        return self.fem.find_mesh_of_manifold(self.fem.base['manifolds'][name])

    def faces(self, b):
        out = []
        for i in b.faces:
            f = b.faces[i]
            if self.dim == 2:
                P = np.array(f.ct.mapping(np.array([-1., 1.]))).T
            else:
                P = np.array(f.ct.mapping(np.array([-1., 1., -1., 1.]), np.array([-1., -1., 1., 1.]))).T
            out.append(self.geo.find(int(f._element), P))
        return out

    def gm(self, name):
        g = self.forms[name].cochain.gathering_matrix
        return {e: np.asarray(g[e]) for e in self.elems}


def choose(sides):
    """sets of region sides: all of one, of two, and some complements (the rest is the second section of each partition)"""
    out = [list(c) for r in (1, 2) for c in itertools.combinations(sides, r)]
    if len(sides) > 8:
        out = out[:len(sides)] + out[len(sides)::max(1, (len(out) - len(sides)) // 10)]
    return [o for o in out if len(o) < len(sides)]


def pydofs(task, rec):
    desc, N = task['desc'], deg(task['N'])
    nm = f"{desc['name']}:N{task['N']}"
    A = Py(desc, N, choose, 16 if task['tier'] == 'quick' else 40)
    G = A.geo
    sec = {}
    for name, st in list(A.chosen.items()) + [(None, A.sides)]:
        with trying(rec, f'{nm}:{len(sec)}:faces'):
            b = A.section(name) if name else A.fem.find_mesh_of_manifold(A.whole)
            f = A.faces(b)
            want = [i for i, s in enumerate(G.boundary) if s.region in st]
            rec.state(nm, str(st))
            rec.ok(None not in f and sorted(f) == want, f'{nm}:section{st}', f'section of region sides {st}: faces {f} '
                   f'instead of {want}')
            rec.ok(len(b.faces) == len(f), f'{nm}:section{st}', 'number of faces')
            if None not in f:
                sec[str(st)] = (b, f)

    def rm(name, *grid):
        R = A.forms[name].reconstruction_matrix(*grid)
        return {e: [dense(c) for c in R[e]] for e in A.elems}
    T = Traces(G, lambda e, q: A.mesh.elements[e].ct.Jacobian_matrix(*q), rm, A.forms, None, max(deg_list(N, A.dim)) + 6)
    on_faces(rec, nm, A, T, sec, A.dim, N, htt=False, exact=lambda i: G.boundary[i].normal is not None)
