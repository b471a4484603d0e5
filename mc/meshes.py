"""Finite families of meshes, written as JSON-able descriptors, and how to build them.

descriptor = {"cfg": <indicator>, "kw": {...}, "dim": 2|3, "name": str, "seed": int (optional)}
"""
import itertools
import random

import numpy as np
import phyem as ph


def _t(x):
    """JSON lists -> what the configurator wants"""
    return x


def M(name, cfg, kw=None, dim=2, **extra):
    d = dict(name=name, cfg=cfg, kw=kw or {}, dim=dim)
    d.update(extra)
    return d


def tqr(name, cells, coo, layout=0, **kw):
    """cells: list of vertex-name lists (3: triangle, 4: quad)"""
    kw = dict(kw)
    kw['element_layout'] = layout
    return M(name, ['tqr', [5 if len(c) == 3 else 9 for c in cells], coo, cells], kw)


def refining(spec):
    """a refining function: minus the distance to the nearest target; dict(targets, rft[, rcm])"""
    if not isinstance(spec, dict) or 'targets' not in spec:
        return spec
    T = [tuple(p) for p in spec['targets']]

    def rff(x, y):
        return -np.min([np.sqrt((x - a) ** 2 + (y - b) ** 2) for a, b in T], axis=0)
    out = {'rff': rff, 'rft': list(spec['rft'])}
    if spec.get('rcm'):
        out['rcm'] = spec['rcm']
    return out


def indicator(desc):
    cfg = desc['cfg']
    kw = dict(desc['kw'])
    if 'trf' in kw:
        kw['trf'] = refining(kw['trf'])
    if isinstance(cfg, list) and cfg[0] == 'tqr':
        types = {i: t for i, t in enumerate(cfg[1])}
        coo = {k: tuple(v) for k, v in cfg[2].items()}
        cells = {i: list(c) for i, c in enumerate(cfg[3])}
        return ('tqr', types, coo, cells), kw
    if isinstance(cfg, list) and cfg[0] == 'dict':
        types = {i: t for i, t in enumerate(cfg[1])}
        para = {i: [tuple(p) for p in ps] for i, ps in enumerate(cfg[2])}
        maps = {i: list(c) for i, c in enumerate(cfg[3])}
        return dict(element_type_dict=types, element_parameter_dict=para, element_map_dict=maps), kw
    if cfg == 'meshpy':
        kw['points'] = [tuple(p) for p in kw['points']]
    return cfg, kw


class Built:
    pass


def build(desc, N, orientations=('inner', 'outer'), t0=None):
    """Fresh manifold, mesh, all Lambda^k spaces with one form each, msehtt implementation."""
    dim = desc['dim']
    random.seed(desc.get('seed', 0))
    np.random.seed(desc.get('seed', 0))
    ph.config.set_embedding_space_dim(dim)
    Mf = ph.manifold(dim)
    m = ph.mesh(Mf)
    ph.space.set_mesh(m)
    fs = {}
    for o in orientations:
        for k in range(dim + 1):
            sp = ph.space.new('Lambda', k, orientation=o)
            fs[f'{o}{k}'] = sp.make_form(r'f^{%d}_{%s}' % (k, o), f'f{k}{o}')
    ph.space.finite(N)
    msehtt, obj = ph.fem.apply('msehtt', dict())
    ind, kw = indicator(desc)
    msehtt.config('tgm')(ind, **kw)
    b = Built()
    b.msehtt = msehtt
    b.tgm = msehtt.base['the_great_mesh']
    b.mesh = msehtt.base['meshes'][m._sym_repr]
    b.abstract_mesh = m
    msehtt.config(b.mesh)(b.tgm, including='all')
    b.abstract = fs
    b.forms = {k: msehtt.base['forms'][f._pure_lin_repr] for k, f in fs.items()}
    b.desc = desc
    b.N = N
    b.dim = dim
    return b


# ---------------------------------------------------------------------------------------------------------
SQ = {'a': [0, 0], 'b': [1.1, 0.1], 'c': [0.9, 1.2], 'd': [-0.1, 0.8]}


def rot(l, k):
    return l[k:] + l[:k]


def perms_coo(coo, order):
    """the same points, named/numbered in another order (vertex numbers follow dict order)"""
    return {k: coo[k] for k in order}


def patches(tier):
    """All two-cell patches over one shared edge: every starting vertex of both cells, and several
    numberings of the vertices (which decides the positive direction of the shared edge)."""
    out = []
    coo = {'a': [0, 0], 'b': [1.1, 0.1], 'c': [0.9, 1.2], 'd': [-0.1, 0.8], 'e': [2.0, -0.2], 'f': [2.2, 1.0],
           'g': [1.9, 0.4]}
    QQ = ['a', 'b', 'c', 'd'], ['b', 'e', 'f', 'c'], 'abcdef'
    QT = ['a', 'b', 'c', 'd'], ['b', 'g', 'c'], 'abcdg'
    TT = ['a', 'b', 'c'], ['b', 'g', 'c'], 'abcg'
    for nm, (A, B, vs) in (('QQ', QQ), ('QT', QT), ('TT', TT)):
        if tier == 'quick':
            orders = [vs, vs[::-1]]
        else:
            orders = [''.join(p) for p in itertools.permutations(vs)]
            if len(vs) > 4:
                orders = orders[::len(orders) // 24]
        for i in range(len(A)):
            for j in range(len(B)):
                for od in orders:
                    out.append(tqr(f'{nm}{i}{j}{od}', [rot(A, i), rot(B, j)], perms_coo(coo, od)))
    return out


def fans(tier):
    out = []
    r = []
    for n in (3, 4, 5):
        ring = {}
        for i in range(n):
            a = 2 * np.pi * i / n + 0.2
            ring[f'r{i}'] = [round(float(np.cos(a)) * (1 + 0.1 * i), 6), round(float(np.sin(a)), 6)]
        coo = dict(ring)
        coo['o'] = [0.05, -0.03]
        cells = [['o', f'r{i}', f'r{(i + 1) % n}'] for i in range(n)]
        for k in range(3):
            out.append(tqr(f'fan{n}t{k}', [rot(c, (k * (j + 1)) % 3) for j, c in enumerate(cells)], coo))
    # quads around an interior vertex (3 and 5: irregular)
    for n in (3, 4, 5):
        coo = {'o': [0.02, 0.01]}
        for i in range(n):
            a = 2 * np.pi * i / n + 0.1
            b = 2 * np.pi * (i + 0.5) / n + 0.1
            coo[f'm{i}'] = [round(float(np.cos(a)), 6), round(float(np.sin(a)), 6)]
            coo[f'c{i}'] = [round(1.3 * float(np.cos(b)), 6), round(1.3 * float(np.sin(b)), 6)]
        cells = [['o', f'm{i}', f'c{i}', f'm{(i + 1) % n}'] for i in range(n)]
        for k in range(4):
            out.append(tqr(f'fan{n}q{k}', [rot(c, (k * (j + 1)) % 4) for j, c in enumerate(cells)], coo))
    return out


TQ = ([['a', 'b', 'c', 'd'], ['b', 'e', 'c']],
      {'a': [0, 0], 'b': [1, 0], 'c': [1, 1], 'd': [0, 1], 'e': [2, 0.5]})


def predefined2(tier):
    out = []
    ks = [1, 2, 3, [2, 3]] if tier == 'quick' else [1, 2, 3, [1, 3], [3, 2], [2, 4]]
    for K in ks:
        for c in (0, 0.1):
            out.append(M(f'crazy{K}c{c}', 'crazy', dict(element_layout=K, c=c, periodic=False)))
    for K in (3, [3, 4]):
        for c in (0, 0.1):
            out.append(M(f'crazyP{K}c{c}', 'crazy', dict(element_layout=K, c=c, periodic=True)))
    out.append(M('crazyB', 'crazy', dict(element_layout=[2, 3], c=0.0, periodic=False, bounds=[[0, 2], [-1, 0.5]])))
    out.append(M('crazyBc', 'crazy', dict(element_layout=[2, 3], c=0.05, periodic=False, bounds=[[0, 2], [-1, 0.5]])))
    for c in (0, 0.1):
        out.append(M(f'crazyWc{c}', 'crazy', dict(element_layout=[[1, 2.5], [2, 1, 1]], c=c, periodic=False)))
    for s in range(2 if tier == 'quick' else 8):
        out.append(M(f'chaotic{s}', 'chaotic', dict(element_layout=1, c=0.1, periodic=False), seed=s))
        out.append(M(f'chaotic{s}k2', 'chaotic', dict(element_layout=2, c=0.0, periodic=False), seed=s))
    out.append(M('chaoticP', 'chaotic', dict(element_layout=1, c=0.1, periodic=True)))
    out.append(M('rectangle', 'rectangle', dict(element_layout=2)))
    out.append(M('quad', 'quad', dict(element_layout=2)))
    out.append(M('bstep', 'backward_step', dict(element_layout=1)))
    out.append(M('cylinder', 'cylinder_channel', dict(element_layout=1)))
    out.append(M('meshpy', 'meshpy', dict(points=[[0, 0], [1, 0], [1, 1], [0, 1]], max_volume=0.3)))
    return out


def refined2(tier):
    out = []
    for ts in (1, 2):
        out.append(tqr(f'TQts{ts}', *TQ, ts=ts))
    for lay in (1, 2):
        out.append(tqr(f'TQlay{lay}', *TQ, layout=lay))
    out.append(tqr('TQlay1ts1', *TQ, layout=1, ts=1))
    for c in (0, 0.1):
        if c == 0:    # 'ts' is not implemented for curvilinear cells
            out.append(M(f'crazyTs1c{c}', 'crazy', dict(element_layout=2, c=c, periodic=False, ts=1)))
        for p in (False, True):
            K = 3 if p else 2
            out.append(M(f'crazyTrf1c{c}p{p}', 'crazy', dict(element_layout=K, c=c, periodic=p, trf=1)))
    out.append(M('crazyTrf2', 'crazy', dict(element_layout=1, c=0.1, periodic=False, trf=2)))
    out.append(M('crazyTrfA', 'crazy', dict(element_layout=[1, 2], c=0.1, periodic=False, trf=1)))
    out.append(M('crazyTrfW', 'crazy', dict(element_layout=[[1, 3], [1]], c=0.06, periodic=False, trf=1,
                                            bounds=[[0, 1], [0, 2]])))
    out.append(M('quadTrf', 'quad', dict(element_layout=1, trf=1)))
    out.append(M('rectTrf', 'rectangle', dict(element_layout=2, trf=1)))
    out.append(M('dict9trf', ['dict', [9, 9], [[[0, 0], [1, 0], [1, 1], [0, 1]], [[1, 0], [2, 0.2], [2.1, 1.2], [1, 1]]],
                             [[0, 1, 2, 3], [1, 4, 5, 2]]], dict(trf=1)))
    out.append(M('dict9trf2', ['dict', [9, 9], [[[0, 0], [1, 0], [1, 1], [0, 1]], [[1, 0], [2, 0.2], [2.1, 1.2], [1, 1]]],
                              [[0, 1, 2, 3], [1, 4, 5, 2]]], dict(trf=2)))
    out.append(M('renum', 'crazy', dict(element_layout=2, c=0.1, periodic=False, trf=1, renumbering=True)))
    return out


def meshes3(tier):
    out = []
    for K in ([1, 2, [1, 2, 3]] if tier == 'quick' else [1, 2, [1, 2, 3], [2, 1, 2], 3]):
        for c in (0, 0.1):
            out.append(M(f'crazy3-{K}c{c}', 'crazy',
                         dict(element_layout=K, c=c, periodic=False, bounds=[[0, 1], [0, 1], [0, 1]]), dim=3))
    out.append(M('crazy3B', 'crazy', dict(element_layout=[2, 1, 2], c=0.0, periodic=False,
                                          bounds=[[0, 2], [0, 1], [-1, 0.5]]), dim=3))
    out.append(M('crazy3W', 'crazy', dict(element_layout=[[1, 2], 1, [3, 1]], c=0.08, periodic=False,
                                          bounds=[[0, 1], [0, 1], [0, 2]]), dim=3))
    out.append(M('crazy3P', 'crazy', dict(element_layout=3, c=0.1, periodic=True,
                                          bounds=[[0, 1], [0, 1], [0, 1]]), dim=3))
    out.append(M('slice', 'periodic slice', dict(element_layout=3, bounds=[[0, 1], [0, 2]], thickness=0.3, levels=1),
                 dim=3))
    out.append(M('slice3', 'periodic slice', dict(element_layout=[3, 4], bounds=[[0, 1], [0, 2]], thickness=0.3,
                                                  levels=3), dim=3))
    return out


def quad_shapes():
    """quads which could be mistaken for one another by a rough description of the shape"""
    sq = [[0, 0], [1, 0], [1, 1], [0, 1]]
    out = [('sq', sq)]
    for d in (1e-1, 1e-3, 3e-5, 1e-6):
        for v in (0, 2):
            q = [list(map(float, x)) for x in sq]
            q[v][0] += d
            q[v][1] -= 0.7 * d
            out.append((f'p{v}{d}', q))
    th = 0.0
    # rectangles with the same diagonal
    for a in (0.25, 0.5, 0.9):
        r = 0.5 * 2 ** 0.5
        c = np.array([0.5, 0.5])
        u = np.array([np.cos(np.pi / 4), np.sin(np.pi / 4)]) * r
        v = np.array([np.cos(np.pi / 4 - 2 * a), np.sin(np.pi / 4 - 2 * a)]) * r
        out.append((f'thales{a}', [list(map(float, p)) for p in (c - u, c + v, c + u, c - v)]))
    out.append(('wide', [[0, 0], [2, 0], [2, 1], [0, 1]]))
    out.append(('tall', [[0, 0], [1, 0], [1, 2], [0, 2]]))
    out.append(('rhomb', [[0, 0], [1, 0.3], [1.3, 1.3], [0.3, 1]]))
    out.append(('rhomb2', [[0, 0], [1, -0.3], [0.7, 0.7], [-0.3, 1]]))
    out.append(('trap', [[0, 0], [1, 0], [0.8, 1], [0.1, 1]]))
    out.append(('trap2', [[0, 0], [1, 0], [0.9, 1], [0.2, 1]]))
    out.append(('kite', [[0, 0], [1, 0.1], [1.4, 1.4], [0.1, 1]]))
    return out


def tri_shapes():
    t = [[0, 0], [1, 0], [0.3, 0.9]]
    out = [('t', t)]
    for d in (1e-1, 1e-3, 3e-5, 1e-6):
        for v in (0, 2):
            q = [list(map(float, x)) for x in t]
            q[v][0] += d
            q[v][1] -= 0.7 * d
            out.append((f'p{v}{d}', q))
    out.append(('mirror', [[0, 0], [1, 0], [0.7, 0.9]]))
    out.append(('turn', [[0, 0], [0, 1], [-0.9, 0.3]]))
    out.append(('slim', [[0, 0], [1, 0], [0.5, 0.1]]))
    out.append(('right', [[0, 0], [1, 0], [0, 1]]))
    return out


def zoo(tier):
    """disconnected cells of many shapes in one mesh, at several sizes and places, in both orders"""
    out = []
    for kind, shapes in (('q', quad_shapes()), ('t', tri_shapes())):
        for sname, scale in (('1', 1.0), ('1e-5', 1e-5), ('300', 300.0)):
            for od in (1, -1):
                coo, cells = {}, []
                for i, (nm, pts) in enumerate(shapes[::od]):
                    c = []
                    for j, (x, y) in enumerate(pts):
                        k = f'v{i}_{j}'
                        coo[k] = [(x + 4 * i) * scale, (y - 3 * i) * scale]
                        c.append(k)
                    for r in range(1 if tier == 'quick' else len(pts)):
                        pass
                    cells.append(c)
                out.append(tqr(f'zoo{kind}{sname}o{od}', cells, coo))
    for sname, b in (('1e-5', [[0, 1.4e-5], [0, 3e-5]]), ('mix', [[0, 1], [0, 2]])):
        out.append(M(f'zooR{sname}', 'crazy', dict(element_layout=[[1, 1.00001, 1.2], [1, 2, 2.00001]], c=0.0, periodic=False,
                                                   bounds=b)))
    return out


def all2(tier):
    return predefined2(tier) + refined2(tier) + fans(tier) + patches(tier)


def is_periodic(desc):
    return bool(desc['kw'].get('periodic')) or desc['cfg'] == 'periodic slice'


def single_valued_topology(desc):
    """3 or more elements along each periodic direction, so that neighbours are unique"""
    return True
