"""Refinement, renewal (adaptive implementation) and levels (multigrid implementation) keep the domain and the fields."""
import itertools
import random
from checks.common import *
from checks.p22 import forked
from scipy.spatial import cKDTree
import checks.p02 as p02
import meshes
import phyem as ph

ID = 'P07'
LEVEL = 'model_checking'
RULE = ('every refinement pattern of the list (threshold refinement with one or two targets on a grid over the domain x 1..4 levels x the rule '
        'that decides, uniform refinement to 4 levels, splitting levels, combinations) x base meshes (turned and renumbered cells, '
        'periodic, curved): the cells tile the domain of the base mesh, with matching faces and numberings; every sequence of renewals '
        'up to depth 3 over a set of refinements x method: cells, numbers, fields, histories, sources; all levels and all ordered '
        'pairs of levels of multigrid meshes: hierarchy, transfers, systems')
ASSUMPTIONS = ['one process (MPI: see P06)', 'transfers by sampled interpolation are compared within the spacing of the samples']
TIMEOUT = {'quick': 600, 'thorough': 3000}

SQ2 = {'a': [0, 0], 'b': [1, 0], 'c': [1, 1], 'd': [0, 1], 'e': [2, .2], 'f': [2., 1.2]}


def pair(name, A='abcd', B='befc', order=None, swap=False):
    """two quads given as type / coordinate / map dictionaries"""
    num = {v: i for i, v in enumerate(order or 'abcdef')}
    cells = [A, B]
    if swap:
        cells = cells[::-1]
    return M(name, ['dict', [9, 9], [[SQ2[v] for v in c] for c in cells], [[num[v] for v in c] for c in cells]], {})


PAIRS = [pair('q'), pair('q-swap', swap=True), pair('q-turn1', A='bcda'), pair('q-turn2', A='cdab'), pair('q-turn3', A='dabc'),
         pair('q-turnB', B='efcb'), pair('q-num', order='fcbeda'), pair('q-turnAB', A='bcda', B='fcbe', order='dcbafe')]
BASES = PAIRS + [M('rect', 'rectangle', dict(element_layout=2)), M('quad', 'quad', dict(element_layout=2)),
                 M('one', 'crazy', dict(element_layout=1, c=0.1, periodic=False)),
                 M('crazy', 'crazy', dict(element_layout=2, c=0.08, periodic=False)),
                 M('crazyp', 'crazy', dict(element_layout=3, c=0.05, periodic=True)),
                 M('wide', 'crazy', dict(element_layout=[[1, 2], [2, 1]], c=0., periodic=False, bounds=[[0, 2], [-1, .5]]))]
RFT = [-.75, -.45, -.28, -.17]


def bbox(d):
    cfg = d['cfg']
    if isinstance(cfg, list):
        p = np.array([v for c in cfg[2] for v in c])
        return p.min(0), p.max(0)
    b = d['kw'].get('bounds')
    if b:
        return np.array([x[0] for x in b]), np.array([x[1] for x in b])
    return np.zeros(2), np.ones(2)


def patterns(d, tier):
    lo, hi = bbox(d)
    g = [(lo + (hi - lo) * np.array(p)).tolist() for p in itertools.product((.03, .55, 1.), repeat=2)]
    sc = float(max(hi - lo))
    out = []
    sets = [[p] for p in g] + [[g[0], g[8]], [g[2], g[6]], [g[4], g[1]]]
    for T in sets:
        for n in (1, 2, 3, 4):
            for rcm in ('center', 'middle'):
                if tier == 'quick' and (len(T) > 1) != (n == 3) and n != 4:
                    continue
                out.append(dict(targets=T, rft=[sc * r for r in RFT[:n]], rcm=rcm))
    return out + [1, 2, 3, 4]


def _quick(name, first, second, method, N, ts):
    """the renewals explored by the quick tier"""
    if method == 1:
        return name in ('q', 'q-turnAB') and N == 1 and ts == 1 and first + second in ('A1', '0A', '1B')
    if N == 2:
        return name == 'q-turn3' and ts == 1 and first + second in ('A1', '0B')
    if ts != 1:
        return name == 'q-turn3' and first + second in ('A1', '1B', 'AA')
    return name == 'q-turn3' or first + second in ('A1', 'B0', 'BB', '1A')


def tasks(tier):
    out = []
    for d in BASES:
        for i, p in enumerate(patterns(d, tier)):
            for ts in (0, 1):
                if ts and (isinstance(d['cfg'], str) and d['kw'].get('c') or (tier == 'quick' and i % 3)):
                    continue
                kw = dict(d['kw'], trf=p)
                if ts:
                    kw['ts'] = ts
                out.append([dict(d, name=f"{d['name']}:{i}:ts{ts}", kw=kw), d])
        if not (isinstance(d['cfg'], str) and d['kw'].get('c')):
            for ts in (1, 2):
                out.append([dict(d, name=f"{d['name']}:ts{ts}", kw=dict(d['kw'], ts=ts)), d])
    out = group(out, 8)
    S = ['0', '1', 'A', 'B']
    for d in [PAIRS[0], PAIRS[4], PAIRS[7], BASES[8]]:
        for first in S:
            for second in S:
                for method in (3, 1):
                    for N in (1, 2) if tier == 'quick' else (1, 2, 3):
                        for ts in (1, 2, 0):
                            if tier == 'quick' and not _quick(d['name'], first, second, method, N, ts):
                                continue
                            out.append(dict(kind='renew', desc=d, seq=[first, second], last=S[2:] if tier == 'quick' else S, method=method, N=N, ts=ts))
    for d in [M('r1', 'rectangle', dict(element_layout=1)), M('rect', 'rectangle', dict(element_layout=2)), PAIRS[3], PAIRS[6],
meshes.tqr('tri', [(0, 1, 2, 3), (1, 4, 2)], {0: (0., 0.), 1: (1., 0.), 2: (1., 1.), 3: (0., 1.), 4: (2., .4)}),
              M('c0', 'crazy', dict(element_layout=[2, 1], c=0., periodic=False)),
              M('c3', 'crazy', dict(element_layout=1, c=0., periodic=False), 3)]:
        for lv in (2, 3) if d['dim'] == 2 else (2,):
            for N in [1, 2, 3, 'MG-N3', 'MG-N4'] + ([[1, 2]] if d['name'] == 'c0' else []):
                if N in (3, 'MG-N4') and lv == 3 and tier == 'quick':
                    continue
                out.append(dict(kind='levels', desc=d, levels=lv, N=N))
    return out


def run(task, rec):
    if isinstance(task, dict) and 'kind' in task:
        return dict(renew=renew, levels=levels)[task['kind']](task, rec)
    run_group(refine, task, rec)


# -------------------------------------------------------------------------------------------------------- tiling
def sides(mapping, m=33):
    """the four sides of a cell, counter-clockwise"""
    s = np.linspace(-1, 1, m)
    o = np.ones(m)
    return [np.array(mapping(*p)).T for p in ((s, -o), (o, s), (-s, o), (-o, -s))]


def area(P):
    q = np.concatenate([p[:-1] for p in P])
    x, y = q.T
    return .5 * np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))


def length(p):
    return np.linalg.norm(np.diff(p, axis=0), axis=1).sum()


def edges_of(cells, period):
    out = {}
    sc = max(np.abs(np.concatenate(P)).max() for P in cells.values())
    for e, P in cells.items():
        for p in P:
            L = length(p)
            if L < 1e-9 * sc:
                continue
            pts = [p[0], p[len(p) // 2], p[-1]]
            if period is not None:
                pts = [np.mod(x - 1e-6, period) + 1e-6 for x in pts]
            pts = [tuple(np.round(x, 7) + 0.) for x in pts]
            k = (pts[1], frozenset([pts[0], pts[2]]))
            out.setdefault(k, []).append((e, p, L))
    return out


def tiling(rec, key, cells, base, period, tol):
    """cells, base: {cell: sides}"""
    A = {e: area(P) for e, P in cells.items()}
    rec.ok(min(A.values()) > 0, key + ':oriented', lambda: f'cell {min(A, key=A.get)} has area {min(A.values())}')
    a0 = sum(area(P) for P in base.values())
    rec.close(sum(A.values()), a0, tol * a0, key + ':area', 'area of all cells')
    E = edges_of(cells, period)
    rec.step(len(E))
    bad = [k for k, v in E.items() if len(v) > 2]
    rec.ok(not bad, key + ':faces', f'faces of more than two cells: {bad[:2]}')
    B = edges_of(base, period)
    outer = [v[0][1] for v in B.values() if len(v) == 1]
    mine = [v[0] for v in E.values() if len(v) == 1]
    if not rec.ok(bool(outer) == bool(mine), key + ':boundary', f'{len(mine)} faces without a neighbour'):
        return
    if not outer:
        return
    rec.close(sum(v[2] for v in mine), sum(length(p) for p in outer), 10 * tol, key + ':boundary-length', 'length of the boundary')
    dense_ = np.concatenate([np.array([p[:-1] + (p[1:] - p[:-1]) * s for s in np.linspace(0, 1, 40)]).reshape(-1, 2) for p in outer])
    dist = max(cKDTree(dense_).query(v[1])[0].max() for v in mine)
    step = max(np.linalg.norm(np.diff(p, axis=0), axis=1).max() for p in outer) / 39
    rec.ok(dist < step + 1e-3 * (tol > 1e-9), key + ':boundary-place', f'a face without a neighbour is {dist} off the boundary')


def cells_of(elements):
    return {e: sides(lambda *p, e=e: elements[e].ct.mapping(*p)) for e in elements}




def refine(task, rec):
    d, base = task
    rec.state(d['name'])
    key = d['name'].split(':')[0] + ':' + ('thr' if isinstance(d['kw'].get('trf'), dict) else f"lv{d['kw'].get('trf', 0)}") + f":ts{d['kw'].get('ts', 0)}"
    rec.trace()
    try:
        a = impl.make(d, 1)
    except NotImplementedError:
        return rec.outcome('refused')
    b = impl.make(base, 1)
    per = None if not base['kw'].get('periodic') else np.array([1., 1.])
    tol = 1e-10 if not base['kw'].get('c') else 1e-3
    tiling(rec, key, cells_of(a.tgm.elements), cells_of(b.tgm.elements), per, tol)
    dets = [np.linalg.det(np.array([[np.asarray(x) * np.ones(1) for x in r] for r in
                                    a.tgm.elements[e].ct.Jacobian_matrix(np.array([s]), np.array([t]))]).transpose(2, 0, 1))[0]
            for e in a.elems for s in (-.8, .1, .9) for t in (-.9, 0., .7)]
    rec.ok(min(dets) > 0, key + ':jacobian', f'Jacobian {min(dets)}')
    p02.one([d, 2], rec)


# ------------------------------------------------------------------------------------------------------- renewal
def spec(name, d):
    lo, hi = bbox(d)
    sc = float(max(hi - lo))
    return {'0': 0, '1': dict(targets=[(.5 * (lo + hi)).tolist()], rft=[-10 * sc], rcm='middle'),
            'A': dict(targets=[lo.tolist()], rft=[-.5 * sc, -.3 * sc], rcm='middle'),
            'B': dict(targets=[hi.tolist(), lo.tolist()], rft=[-.6 * sc, -.35 * sc, -.2 * sc], rcm='middle')}[name]


class Adaptive:
    def __init__(self, desc, N):
        random.seed(0)
        ph.config.set_embedding_space_dim(2)
        man = ph.manifold(2)
        m = ph.mesh(man)
        ph.space.set_mesh(m)
        self.abstract = {}
        for o in ('inner', 'outer'):
            for k in range(3):
                sp_ = ph.space.new('Lambda', k, orientation=o)
                self.abstract[f'{o}{k}'] = sp_.make_form(r'f^{%d}_{%s}' % (k, o), f'f{k}{o}')
        ph.space.finite(N)
        self.fem, _ = ph.fem.apply('msehtt-a', dict())
        ind, kw = meshes.indicator(desc)
        self.fem.config('tgm')(ind, **kw)
        self.mesh = self.fem.base['meshes'][m._sym_repr]
        self.fem.config(self.mesh)(self.fem.base['the_great_mesh'], including='all')
        self.top = {k: self.fem.base['forms'][f._pure_lin_repr] for k, f in self.abstract.items()}

    def snap(self, gen=-1):
        out = {}
        for n, T in self.top.items():
            F = T.generations[gen]
            out[n] = {float(t): {e: np.array(F[t].cochain[e]) for e in F.tpm.composition} for t in F.cochain._tcd}
        return out

    @property
    def tgm(self):
        return self.top['inner0'].current.tgm


def poly(i):
    """polynomial fields of degree <= 1 with gradient <= G"""
    if i == 0:
        return (lambda t, x, y: 1.5 + 0 * x + 0 * t), (lambda t, x, y: -.75 + 0 * x + 0 * t), 0.
    return (lambda t, x, y: 1.5 - 2 * x + y + t), (lambda t, x, y: .5 + .5 * x - 1.5 * y + 2 * t), 2.3


def cells_equal(rec, key, E, F):
    """the same cells with the same indices"""
    if rec.ok({str(e) for e in E} == {str(e) for e in F}, key + ':indices', 'indices of cells'):
        G = {str(e): e for e in F}
        for e in E:
            rec.close(np.concatenate(sides(E[e].ct.mapping, 3)), np.concatenate(sides(F[G[str(e)]].ct.mapping, 3)), 1e-12,
                      key + ':cells', f'cell {e}')


GR = np.array([-.9, -.4, .2, .8])


def renew(task, rec):
    for last in task['last']:
        forked(renew_one, rec, task, task['seq'] + [last])


def renew_one(rec, task, seq):
    d, N, ts, method = task['desc'], task['N'], task['ts'], task['method']
    key = f"{d['name']}:N{N}:m{method}:ts{ts}"
    rec.state(key, *seq)
    rec.trace()
    A = Adaptive(d, N)
    A.fem.initialize(ts=ts)
    T = (.5, 0.)
    fields = {}
    for t, i in zip(T, (1, 0)):
        f, g, grad = poly(i)
        for n, top in A.top.items():
            cf = ph.vc.vector(f, g) if n[-1] == '1' else ph.vc.scalar(f)
            top.current[t].reduce(cf[t])
            fields[n, t] = (cf, grad)
    cf0 = ph.vc.scalar(poly(1)[0])
    A.top['outer2'].current.cf = cf0
    first = {str(e): np.concatenate(sides(A.tgm.elements[e].ct.mapping)) for e in A.tgm.elements}
    base_cells = cells_of(A.tgm.elements)
    h = max(np.linalg.norm(p.max(0) - p.min(0)) for p in first.values())
    per_dir = {3: 103, 1: 60}[method]
    err = 0.
    for step, s in enumerate(seq):
        k = f'{key}:{"-".join(seq[:step + 1])}'
        before = A.snap()
        old = {str(e) for e in A.tgm.elements}
        info = A.fem.renew(meshes.refining(spec(s, d)), ts=ts, use_method=method)
        rec.step()
        el = A.tgm.elements
        same = {str(e) for e in el} == old
        rec.ok(bool(info['all same']) == same or method == 1, k + ':info', f"'all same' is {info['all same']}")
        tiling(rec, key + ':tiling', cells_of(el), base_cells, None, 1e-10)
        again = A.snap(-2)
        now = A.snap()
        for n in before:
            ok = before[n].keys() == again[n].keys() and all(np.array_equal(before[n][t][e], again[n][t][e]) for t in before[n] for e in before[n][t])
            rec.ok(ok, f'{key}:{n}:source', 'the renewal changes the form it comes from')
            if not rec.ok(set(now[n]) == set(before[n]), f'{key}:{n}:instants', f'{sorted(now[n])}'):
                continue
            if same and method == 3:
                ok = all(np.array_equal(before[n][t][e], now[n][t][e]) for t in before[n] for e in before[n][t])
                rec.ok(ok, f'{key}:{n}:same', 'coefficients on the same mesh')
        err = err if same and method == 3 else 3 * err + 1.
        for (n, t), (cf, grad) in fields.items():
            F = A.top[n].current
            k = int(n[-1])
            rf = f'{key}:{n}:{"constant" if grad == 0 else "linear"}'
            text = f'field at {t} after {seq[:step + 1]}'
            F[.125].reduce(cf[t])
            ref = get(F, .125)
            F.cochain.clean(t=.125)
            dev = max(np.abs(now[n][t][e] - ref[e]).max() for e in ref)
            affine = step == 0
            if grad == 0 and (k < 2 or affine):
                rec.close(dev, 0., 1e-9, rf, text)
            elif k == 0 or (N > 1 and affine):
                rec.close(dev, 0., 1e-9 + 2 * err * grad * h / per_dir * h ** k, rf, text)
            else:
                rec.close(dev, 0., (grad + 1.5) * h ** (k + 1), rf + ':coarse', text)
            if k == 2:
                rec.close(sum(v.sum() for v in now[n][t].values()), sum(v.sum() for v in ref.values()), .1 * (step + 1) * h ** 2, rf + ':total', text)
            if k == 0 and not (ts == 0 and not same):
                x, v = F[t].reconstruct(GR, GR, ravel=True)
                dev = max(np.abs(np.asarray(v[0][e]) - cf[t](*[c[e] for c in x])[0]).max() for e in F.tpm.composition)
                rec.close(dev, 0., 1e-9 + 4 * err * grad * h / per_dir, rf + ':field', text)
            if n[-1] == '0' or n[-1] == '1':
                c, gm = now[n][t], F.cochain.gathering_matrix
                vals = {}
                dv = 0.
                for e in c:
                    for j, q in zip(np.asarray(gm[e]).tolist(), c[e].tolist()):
                        dv = max(dv, abs(vals.setdefault(j, q) - q))
                rec.close(dv, 0., 1e-9 + (err * grad * h / per_dir if method == 1 else 0), f'{key}:{n}:single', 'one degree of freedom, several values')
        rec.ok(A.top['outer2'].current.cf._field is cf0, key + ':cf', 'the continuous field of a form is not kept')
    if method == 3 and N == 1 and ts == 1:
        # the mesh of the last generation is the mesh that is configured this way
        tw = impl.make(M('twin', d['cfg'], dict(d['kw'], trf=spec(seq[-1], d), ts=ts)), N)
        cells_equal(rec, key + ':twin', A.tgm.elements, tw.tgm.elements)
        for n in A.top:
            g = {str(e): np.asarray(v) for e, v in tw.gm(n).items()}
            gm = A.top[n].current.cochain.gathering_matrix
            rec.ok(all(np.array_equal(np.asarray(gm[e]), g[str(e)]) for e in A.tgm.elements), f'{key}:{n}:twin-numbers', 'numbers')
            m1 = A.top[n].current.space.mass_matrix(A.top[n].current.degree)[0]
            m2 = tw.M(n)
            for e in A.tgm.elements:
                rec.close(impl.dense(m1[e]), m2[[q for q in m2 if str(q) == str(e)][0]], 1e-12, f'{key}:{n}:twin-mass', 'mass matrix')


# -------------------------------------------------------------------------------------------------------- levels
class Levels:
    def __init__(self, desc, N, lv):
        dim = desc['dim']
        random.seed(0)
        ph.config.set_embedding_space_dim(dim)
        man = ph.manifold(dim)
        m = ph.mesh(man)
        ph.space.set_mesh(m)
        self.abstract = {}
        for o in ('inner', 'outer'):
            for k in range(dim + 1):
                sp_ = ph.space.new('Lambda', k, orientation=o)
                self.abstract[f'{o}{k}'] = sp_.make_form(r'f^{%d}_{%s}' % (k, o), f'f{k}{o}')
        ph.space.finite(N)
        self.fem, _ = ph.fem.apply('msehtt-smg', dict())
        ind, kw = meshes.indicator(desc)
        self.fem.config('tgm')(ind, mgc=lv, **kw)
        self.tgm = self.fem.base['the_great_mesh']
        mesh = self.fem.base['meshes'][m._sym_repr]
        self.fem.config(mesh)(self.tgm, including='all')
        self.forms = {k: self.fem.base['forms'][f._pure_lin_repr] for k, f in self.abstract.items()}


def smooth(dim):
    """polynomials: all integrals are exact"""
    if dim == 2:
        return [lambda t, x, y: x * y + .5 * x ** 2 - y + t, lambda t, x, y: (2 * y ** 2 - x * y + x - .3) * t]
    return [lambda t, x, y, z: x * y + z ** 2 - .5 * z, lambda t, x, y, z: (x * z - y ** 2 + y) * t, lambda t, x, y, z: x - y * z + 2 * x ** 2]


def volume(el, dim):
    q, w = np.polynomial.legendre.leggauss(4)
    X = np.meshgrid(*[q] * dim, indexing='ij')
    W = np.prod(np.meshgrid(*[w] * dim, indexing='ij'), axis=0)
    J = el.ct.Jacobian_matrix(*[x.ravel() for x in X])
    J = np.array([[np.asarray(v) * np.ones(W.size) for v in r] for r in J]).transpose(2, 0, 1)
    return np.linalg.det(J) @ W.ravel()


def vector(F, cochain):
    gm = F.cochain.gathering_matrix
    v = np.zeros(gm.num_global_dofs)
    for e in cochain:
        v[np.asarray(gm[e])] = cochain[e]
    return v


def get(F, t):
    c = F[t].cochain
    return {e: np.array(c[e]) for e in F.tpm.composition}


def deg_max(N):
    return max(N) if isinstance(N, (list, tuple)) else N


def levels(task, rec):
    d, N, lv = task['desc'], task['N'], task['levels']
    key = f"{d['name']}:N{N}:L{lv}"
    dim = d['dim']
    rec.trace()
    A = Levels(d, deg(N), lv)
    L = list(A.tgm.level_range)
    rec.ok(L == list(range(lv)) and A.tgm.max_level == lv - 1, key + ':range', f'{L}')
    E = {l: A.tgm.get_level(l).elements for l in L}
    vol = {l: {e: volume(E[l][e], dim) for e in E[l]} for l in L}
    for l in L[1:]:
        rec.state(key, 'mesh', l)
        if dim == 2:
            tiling(rec, f'{key}:{l}', cells_of(E[l]), cells_of(E[0]), None, 1e-10)
        rec.close(sum(vol[l].values()), sum(vol[0].values()), 1e-11, f'{key}:{l}:volume', 'volume')
        tw = impl.make(M('twin', d['cfg'], dict(d['kw'], ts=l, renumbering=True), dim), 1)
        cells = {e: np.array(tw.tgm.elements[e].ct.mapping(*impl.flat(*[GR] * dim))) for e in tw.elems}
        rec.ok(set(cells) == set(E[l]) and all(np.allclose(cells[e], np.array(E[l][e].ct.mapping(*impl.flat(*[GR] * dim))), atol=1e-12) for e in cells),
               f'{key}:{l}:twin', 'the level is not the mesh that is split as often')
    try:
        H = A.tgm.hierarchy()
    except NotImplementedError:
        H = None
        rec.outcome('no hierarchy')
    if H is not None:
        rec.ok(sorted(H) == L[:-1], key + ':hierarchy', f'{sorted(H)}')
        for l in L[:-1]:
            kids = [i for e in H[l] for i in H[l][e][1]]
            rec.ok(sorted(kids) == sorted(E[l + 1]) and sorted(H[l]) == sorted(E[l]), f'{key}:{l}:children', 'each cell has one parent')
            for e in H[l]:
                rec.close(sum(vol[l + 1][i] for i in H[l][e][1]), vol[l][e], 1e-12, f'{key}:{l}:children-volume', f'children of {e}')
    cfs = smooth(dim)
    triangles = d['name'] == 'tri'
    for n, F in A.forms.items():
        k = int(n[-1])
        vec = k not in (0, dim)
        cf = ph.vc.vector(*cfs[:dim]) if vec else ph.vc.scalar(cfs[0])
        F[.5].reduce(cf[.5])
        red = {l: get(F.get_level(l), .5) for l in L}
        for l in L:
            tw = F.get_level(l)
            tw[.25].reduce(cf[.5])
            c = get(tw, .25)
            rec.ok(all(np.array_equal(c[e], red[l][e]) for e in c), f'{key}:{n}:reduce', f'level {l}')
            tw.cochain.clean(t=.25)
        if dim == 3 and k not in (0, dim) and False:
            continue
        const = [1.5, -.5, 2.][:dim if vec else 1]
        lin = ph.vc.vector(*[eval('lambda t, %s: %r + 0 * x' % (', '.join('xyz'[:dim]), c)) for c in const]) if vec else \
            ph.vc.scalar(eval('lambda t, %s: %r + 0 * x' % (', '.join('xyz'[:dim]), const[0])))
        for a, b in itertools.product(L, L):
            if a == b:
                continue
            rec.state(key, n, a, b)
            fa, fb = F.get_level(a), F.get_level(b)
            kk = f'{key}:{n}:{"up" if a < b else "down"}'
            src = get(fa, .5)
            try:
                A.tgm.pass_cochain(fa, .5, fb, .75)
            except NotImplementedError:
                rec.outcome('transfer refused')
                continue
            rec.step()
            got = get(fb, .75)
            rec.ok(all(np.array_equal(src[e], get(fa, .5)[e]) for e in src), kk + ':source', 'the source is changed')
            rec.ok(all(np.array_equal(red[b][e], get(fb, .5)[e]) for e in red[b]), kk + ':others', 'other instants of the target are changed')
            # constants are in all the spaces
            fa[.125].reduce(lin[.5])
            A.tgm.pass_cochain(fa, .125, fb, .125)
            c = get(fb, .125)
            fb[.25].reduce(lin[.5])
            c2 = get(fb, .25)
            for e in c:
                rec.close(c[e], c2[e], 1e-9 if not triangles or k < 2 else 1., kk + ':constant', f'constant field, {a} -> {b}')
            try:
                ind, cor = A.tgm.dof_correspondence.global_correspondence(fb, fa)
            except NotImplementedError:
                ind, cor = 'empty', None
            rec.outcome(ind)
            if ind == 'complete':
                # each dof of the coarse form is the sum of dofs of the fine one: the same for every field
                for e in got:
                    rec.close(got[e], red[b][e], 1e-11, kk + ':complete', 'sum of the dofs')
                v = A.tgm.pass_vector(F.get_level(a)[.5].cochain.gathered_global_vector, fa, fb)
                rec.close(np.asarray(v.V), vector(fb, got), 1e-13, kk + ':vector', 'pass_vector is not pass_cochain')
                rec.ok({float(t) for t in fa.cochain._tcd} == {.5, .125, .75, .25} & {float(t) for t in fa.cochain._tcd}, kk + ':left', 'pass_vector leaves cochains behind')
            if a < b and not triangles and d['name'] in ('r1', 'rect', 'c0', 'c3') and not isinstance(N, str) and (dim == 2):
                # nested spaces: any field of the coarse space is kept
                rng = np.random.default_rng(3)
                x = rng.standard_normal(fa.cochain.gathering_matrix.num_global_dofs)
                gm = fa.cochain.gathering_matrix
                fa[.25].cochain = {e: x[np.asarray(gm[e])] for e in fa.tpm.composition}
                try:
                    A.tgm.pass_cochain(fa, .25, fb, .25)
                    X, V = fb[.25].reconstruct(*[GR] * dim, ravel=True)
                except NotImplementedError:
                    continue
                # the transfer takes samples of the field, at least 30 per direction and cell
                fine = np.linspace(-1, 1, 41)
                y, w = fa[.25].reconstruct(*[fine] * dim, ravel=False)
                slope = max(sum(np.abs(np.diff(np.asarray(q[e]).reshape(41, 41), axis=i)).max() for i in (0, 1)) * 20 for q in w for e in q)
                y, w = fa[.25].reconstruct(*[np.linspace(-1, 1, 81)] * dim, ravel=True)
                tree = cKDTree(np.array([np.concatenate([np.asarray(q[e]) for e in q]) for q in y]).T)
                ex = [np.concatenate([np.asarray(q[e]) for e in q]) for q in w]
                dv = 0.
                for e in fb.tpm.composition:
                    i = tree.query(np.array([np.asarray(q[e]) for q in X]).T)[1]
                    dv = max(dv, max(np.abs(np.asarray(p[e]) - q[i]).max() for p, q in zip(V, ex)))
                rec.close(dv, 0., 1e-8 + 3 * deg_max(N) * slope / 30, kk + ':nested', 'a field of the coarse space')
    # fields set on the multigrid form reach all levels
    F = A.forms['outer0']
    F.cf = ph.vc.scalar(cfs[0])
    F[.625].reduce()
    for l in L:
        f = F.get_level(l)
        c = get(f, .625)
        f[.3].reduce(ph.vc.scalar(cfs[0])[.625])
        rec.ok(all(np.array_equal(c[e], get(f, .3)[e]) for e in c), key + ':cf', f'field on level {l}')
