"""Region-wise data sets compute like the fields they sample."""
from checks.common import *
import itertools
from phyem.tools.dds.region_wise_structured import DDSRegionWiseStructured as DDS
from phyem.tools.dds.region_wise_structured_group import DDS_RegionWiseStructured_Group as GR
from phyem.tools.frozen import Frozen

ID = 'P25'
LEVEL = 'model_checking'
RULE = ('all sequences of operations (sum, difference with data and numbers, scaling, dot and cross products, powers, squares, norms) up to the depth bound on '
        'scalar, vector and tensor data sets in 2 and 3 dimensions over 1..3 regions of different shapes, each result compared with a dense model, the '
        'operands with what they were; pairs of data sets on other points must be refused; stream functions of all linear divergence-free velocities on '
        'all arrangements of regions x orientations of their arrays x names of the regions x starting corners; interpolation at and between the points; maxima and norms')
ASSUMPTIONS = ['regions of an arrangement meet in whole sides', 'norms of data sets are Riemann sums over the box of a region: only exact for constant data on boxes']
TIMEOUT = {'quick': 200, 'thorough': 1500}
OK = (AssertionError, NotImplementedError)


def tasks(tier):
    L = [dict(kind='algebra', dim=dim, nreg=nreg, depth=2 if tier == 'quick' else 3, first=k) for dim in (2, 3) for nreg in (1, 3) for k in ('s', 'v', 't')]
    for name in ARR:
        L.append(dict(kind='stream', name=name, tier=tier))
    L += [dict(kind='interp', dim=dim) for dim in (2, 3)]
    L.append(dict(kind='refuse'))
    L += [dict(kind='form', desc=d, N=N) for d in (M('32', 'crazy', dict(element_layout=[3, 2], c=0.0)), M('c23', 'crazy', dict(element_layout=[2, 3], c=0.1))) for N in (1, 2, 3)]
    return L


def run(task, rec):
    globals()[task['kind']](task, rec)


# ------------------------------------------------------------------------------- data
SHAPES = [(3, 2, 4), (2, 3, 2), (4, 2, 3)]
NAMES = [0, 'b', 'R-2']


def axes(dim, r):
    out = []
    for i in range(dim):
        n = SHAPES[r][i]
        a = np.linspace(0, 1, n) ** 1.2 * (1 + .3 * i) + (2.5 * r if i == 0 else -.4 * i)
        out.append(a)
    return out


def data(dim, nreg, kind, seed):
    rng = np.random.default_rng(seed)
    nm = NAMES[:nreg]
    coo = [{} for _ in range(dim)]
    for r in range(nreg):
        for i, x in enumerate(np.meshgrid(*axes(dim, r), indexing='ij')):
            coo[i][nm[r]] = x + (0.05 * np.sin(3 * x) if i == 0 else 0)
    c = {'s': 1, 'v': dim, 't': dim * dim}[kind]
    val = [{nm[r]: rng.uniform(.5, 2, SHAPES[r][:dim]) * rng.choice([-1, 1], SHAPES[r][:dim]) for r in range(nreg)} for _ in range(c)]
    return coo, val


def copy(v):
    return [{r: np.array(a) for r, a in c.items()} for c in v]


def close(rec, D, want, key):
    got = D._val_dict_list
    if not rec.ok(len(got) == len(want) and all(set(a) == set(b) for a, b in zip(got, want)), key + ':shape', f'{len(got)} components instead of {len(want)}'):
        return
    for i, c in enumerate(want):
        for r in c:
            s = max(1., np.abs(c[r]).max())
            rec.close(np.asarray(got[i][r]) / s, c[r] / s, 1e-11, f'{key}:comp{i}:{r}', 'values')


def zipmap(f, *vs):
    return [{r: f(*(v[i][r] for v in vs)) for r in vs[0][i]} for i in range(len(vs[0]))]


def unary(k, dim):
    out = [(f'{n}*', lambda D, n=n: n * D, lambda v, n=n: zipmap(lambda a: n * a, v), k) for n in (-2, 0.5, 0)]
    out += [(f'+{n}', lambda D, n=n: D + n, lambda v, n=n: zipmap(lambda a: a + n, v), k) for n in (3, -1.5)]
    out += [(f'-{n}', lambda D, n=n: D - n, lambda v, n=n: zipmap(lambda a: a - n, v), k) for n in (3, -1.5)]
    out += [(f'**{n}', lambda D, n=n: D ** n, lambda v, n=n: zipmap(lambda a: a ** n, v), k) for n in (2, 3, 1)]
    out.append(('square', lambda D: D.square, lambda v: zipmap(lambda a: a * a, v), k))
    if k == 'v' and dim == 2:
        out.append(('norm', lambda D: D.norm(), lambda v: [{r: np.hypot(v[0][r], v[1][r]) for r in v[0]}], 's'))
    return out


def binary(k, dim):
    out = [('+', lambda D, E: D + E, lambda v, w: zipmap(lambda a, b: a + b, v, w), k), ('-', lambda D, E: D - E, lambda v, w: zipmap(lambda a, b: a - b, v, w), k),
           ('dot', lambda D, E: D.dot(E), lambda v, w: [{r: sum(v[i][r] * w[i][r] for i in range(len(v))) for r in v[0]}], 's')]
    if k == 'v' and dim == 2:
        for nm, f in (('x', lambda D, E: D.x(E)), ('cross', lambda D, E: D.cross_product(E))):
            out.append((nm, f, lambda v, w: [{r: v[0][r] * w[1][r] - v[1][r] * w[0][r] for r in v[0]}], 's'))
    return out


def algebra(task, rec):
    dim, nreg = task['dim'], task['nreg']
    base = {}
    for i, k in enumerate('svt'):
        for j in range(2):
            coo, val = data(dim, nreg, k, 10 * i + j)
            base[k, j] = (DDS([dict(c) for c in coo], copy(val)), val)
    keep = {q: (copy(D._coo_dict_list), copy(D._val_dict_list)) for q, (D, _) in base.items()}
    tag = f'{dim}d:{nreg}reg'

    def same(key):
        for q, (c, v) in keep.items():
            D = base[q][0]
            ok = all(np.array_equal(a[r], b[r]) for x, y in ((c, D._coo_dict_list), (v, D._val_dict_list)) for a, b in zip(x, y) for r in a)
            rec.ok(ok, key + ':operands', 'an operand has changed')

    def visit(D, v, k, path, depth):
        for n, f, g, kk in unary(k, dim):
            step(lambda: f(D), lambda: g(v), kk, f'{path}.{n}', depth)
        for n, f, g, kk in binary(k, dim):
            for j in range(2):
                E, w = base[k, j]
                step(lambda: f(D, E), lambda: g(v, w), kk, f'{path}.{n}{k}{j}', depth)
                if depth == 1 or n == '-':
                    step(lambda: f(E, D), lambda: g(w, v), kk, f'{k}{j}.{n}({path})', depth)
            step(lambda: f(D, D), lambda: g(v, v), kk, f'{path}.{n}self', depth)

    def step(f, g, k, path, depth):
        if rec.nviol > 40:
            return
        key = f'{tag}:{path}'
        rec.state(key)
        with np.errstate(all='ignore'):
            ok, R = rec.guard(key, f)
            rec.step()
            if not ok:
                return
            want = g()
        close(rec, R, want, key)
        rec.ok(R.ndim == dim and R.dtype == {'s': 'scalar', 'v': 'vector', 't': 'tensor'}[k], key + ':type', f'{R.ndim} {R.dtype}')
        rec.ok([set(c) for c in R._coo_dict_list] == [set(NAMES[:nreg])] * dim and list(R) == NAMES[:nreg], key + ':regions', 'regions')
        for c, d in zip(R._coo_dict_list, keep['s', 0][0]):
            rec.ok(all(np.array_equal(c[r], d[r]) for r in d), key + ':points', 'points')
        mx = R.maximum()
        for i, c in enumerate(want):
            m = max(np.abs(a).max() for a in c.values())
            rec.close(float(mx[i]) / max(m, 1), m / max(m, 1), 1e-11, key + ':max', 'maximum')
        rec.trace()
        if len(rec.samples) < 2:
            rec.sample(key)
        if depth > 1:
            visit(R, want, k, path, depth - 1)
        same(key)

    k = task['first']
    D, v = base[k, 0]
    visit(D, v, k, k + '0', task['depth'])
    same(tag)


# ------------------------------------------------------------------------------- refusals
def refuse(task, rec):
    for dim in (2, 3):
        for nreg in (1, 2, 3):
            for k in 'sv':
                coo, val = data(dim, nreg, k, 1)
                A = DDS(coo, copy(val))
                others = {}
                for i in range(dim):
                    c2 = copy(coo)
                    r = NAMES[nreg - 1]
                    c2[i][r] = c2[i][r] + .1 * (1 + i)
                    others[f'moved{i}'] = DDS(c2, copy(val))
                c2 = copy(coo)
                c2[-1] = {r: x[::-1] if r == NAMES[0] else x for r, x in c2[-1].items()}
                others['flipped'] = DDS([{r: (x[::-1] if r == NAMES[0] else x) for r, x in c.items()} for c in coo], copy(val))
                if nreg > 1:
                    keys = NAMES[:nreg - 1]
                    others['fewer'] = DDS([{r: c[r] for r in keys} for c in coo], [{r: c[r] for r in keys} for c in val])
                others['renamed'] = DDS([{f'q{r}': c[r] for r in c} for c in coo], [{f'q{r}': c[r] for r in c} for c in val])
                for n, B in others.items():
                    for o, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('dot', lambda a, b: a.dot(b)), ('x', lambda a, b: a.x(b))):
                        for a, b, s in ((A, B, ''), (B, A, 'r')):
                            key = f'refuse:{dim}:{nreg}:{k}:{n}:{o}{s}'
                            rec.state(key)
                            rec.trace()
                            rec.step()
                            rec.raises(key, f, a, b)
                # the same points in another object are the same points
                B = DDS(copy(coo), copy(val))
                for o, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('dot', lambda a, b: a.dot(b))):
                    ok, R = rec.guard(f'copy:{dim}:{nreg}:{k}:{o}', f, A, B)
                    if ok:
                        want = {'+': zipmap(lambda a, b: a + b, val, val), '-': zipmap(lambda a, b: a - b, val, val),
                                'dot': [{r: sum(val[i][r] ** 2 for i in range(len(val))) for r in val[0]}]}[o]
                        close(rec, R, want, f'copy:{dim}:{nreg}:{k}:{o}')
                if k == 's':
                    coo, val = data(dim, nreg, 'v', 1)
                    for o, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('dot', lambda a, b: a.dot(b))):
                        rec.raises(f'kinds:{dim}:{nreg}:{o}', f, A, DDS(coo, val))
                # constructor
                bad = copy(val)
                bad[0][NAMES[0]] = bad[0][NAMES[0]][..., :1]
                rec.raises(f'shape:{dim}:{nreg}:{k}', DDS, coo, bad)
                # constant data on boxes
                box = [{} for _ in range(dim)]
                vol = 0.
                for r in range(nreg):
                    ax = axes(dim, r)
                    vol += np.prod([a[-1] - a[0] for a in ax])
                    for i, x in enumerate(np.meshgrid(*ax, indexing='ij')):
                        box[i][NAMES[r]] = x
                C = DDS(box, [{r: np.full(x.shape, 1.5 - j) for r, x in box[0].items()} for j in range(dim)])
                n = C.L2_norm()
                for j in range(dim):
                    rec.close(n[j], abs(1.5 - j) * vol ** .5, 1e-10, f'norm:{dim}:{nreg}:{j}', 'L2-norm of a constant')


# ------------------------------------------------------------------------------- stream functions
P9 = {(i, j): np.array([i * 1.1 + .2 * j - .9, j * .9 - .15 * i - .6]) for i in range(4) for j in range(4)}
CEN = {k: v - P9[1, 1] for k, v in P9.items()}           # a corner in the origin


def cells(*ij):
    return [((i, j), (i + 1, j), (i, j + 1), (i + 1, j + 1)) for i, j in ij]


ARR = {'one': cells((0, 0)), 'row': cells((0, 0), (1, 0)), 'col': cells((0, 0), (0, 1)), 'four': cells((0, 0), (1, 0), (0, 1), (1, 1)), 'L': cells((0, 0), (1, 0), (1, 1)),
       'three': cells((0, 0), (1, 0), (2, 0)), 'diag': cells((0, 0), (1, 1)), 'S': cells((0, 0), (1, 0), (1, 1), (2, 1))}
FLIPS = [lambda a: a, lambda a: a[::-1], lambda a: a[:, ::-1], lambda a: a[::-1, ::-1], lambda a: a.T, lambda a: a.T[::-1], lambda a: a.T[:, ::-1], lambda a: a.T[::-1, ::-1]]
PSI = {'x': lambda x, y: x, 'y': lambda x, y: y, 'xx': lambda x, y: x * x, 'xy': lambda x, y: x * y, 'yy': lambda x, y: y * y}
VEL = {'x': lambda x, y: (0 * x, -1 + 0 * x), 'y': lambda x, y: (1 + 0 * x, 0 * x), 'xx': lambda x, y: (0 * x, -2 * x), 'xy': lambda x, y: (x, -y), 'yy': lambda x, y: (2 * y, 0 * x)}


def stream(task, rec):
    """u = dpsi/dy, v = -dpsi/dx; trapezoidal sums along straight lines are exact for linear velocities"""
    A = ARR[task['name']]
    n = len(A)
    perms = list(itertools.permutations(range(n)))
    if task['tier'] == 'quick' and n > 3:
        perms = perms[::5]
    turns = list(itertools.product(range(8), repeat=min(n, 2)))
    for pts, P in (('p', P9), ('c', CEN)):
        for perm in perms:
            for tt in turns:
                tt = tuple(tt) + tuple((3 * i + sum(tt)) % 8 for i in range(n - len(tt)))
                X, Y = {}, {}
                for q in range(n):
                    a, b, c, d = (P[k] for k in A[perm[q]])
                    s0, s1 = (3, 4) if q % 2 else (2, 3)
                    s, t = np.meshgrid(np.linspace(0, 1, s0), np.linspace(0, 1, s1), indexing='ij')
                    xy = [(1 - s) * (1 - t) * a[i] + s * (1 - t) * b[i] + (1 - s) * t * c[i] + s * t * d[i] for i in range(2)]
                    X[q], Y[q] = (FLIPS[tt[q]](z).copy() for z in xy)
                if pts == 'c':          # zero up to rounding, of either sign
                    for q in X:
                        X[q] += (-1) ** q * 1e-16
                        Y[q] -= (-1) ** q * 1e-16
                for psi in PSI if pts == 'p' and perm == perms[0] else ('xy', 'yy'):
                    key = f"{task['name']}:{pts}:{perm}:{tt}:{psi}"
                    if rec.nviol > 40:
                        return
                    rec.state(key)
                    rec.trace()
                    U, V = {}, {}
                    for q in X:
                        U[q], V[q] = VEL[psi](X[q], Y[q])
                    want = {q: PSI[psi](X[q], Y[q]) for q in X}
                    D = DDS([X, Y], [U, V])
                    corners = sorted({(round(float(P[k][0]), 12), round(float(P[k][1]), 12)) for c in A for k in c})
                    for how in [None, 'shift'] + (corners if len(turns) <= 8 or tt[0] == tt[-1] else corners[:1]):
                        kw = {} if how is None else dict(shift=2.5) if how == 'shift' else dict(starting_coo_and_sf=([how[0], how[1]], -1.25))
                        rec.step()
                        ok, S = rec.guard(f'{key}:{how}', lambda: D.streamfunction(**kw))
                        if not ok:
                            continue
                        S = S._val_dict_list[0]
                        if not rec.ok(set(S) == set(X), f'{key}:{how}:regions', f'{sorted(S)}'):
                            continue
                        if how in (None, 'shift'):
                            off = (2.5 if how else 0.) - want[0][0, 0]
                        else:
                            off = -1.25 - float(PSI[psi](*how))
                        for q in X:
                            rec.close(S[q], want[q] + off, 1e-6, f'{key}:{how}:{q}', 'stream function')
    rec.sample(key)


# ------------------------------------------------------------------------------- interpolation
def interp(task, rec):
    dim = task['dim']
    for nreg in (1, 2):
        box = [{} for _ in range(dim)]
        for r in range(nreg):
            for i, x in enumerate(np.meshgrid(*axes(dim, r), indexing='ij')):
                box[i][NAMES[r]] = x
        for kind, c in (('s', 1), ('v', dim)):
            lin = [lambda *x, j=j: 1 + j + sum((i + 1 - 2 * j) * x[i] for i in range(dim)) for j in range(c)]
            D = DDS(box, [{r: f(*[b[r] for b in box]) for r in box[0]} for f in lin])
            key = f'interp:{dim}:{nreg}:{kind}'
            rec.state(key)
            rec.trace()
            ok, itp = rec.guard(key, D.interpolate)
            if not ok:
                continue
            for r in range(nreg):
                for w in itertools.product((0.07, .5, .81), repeat=dim):
                    x = [a[0] + q * (a[-1] - a[0]) for a, q in zip(axes(dim, r), w)]
                    rec.step()
                    got = np.ravel(itp(*x))
                    rec.close(got, [f(*x) for f in lin], 1e-9, f'{key}:{r}:{w}', 'interpolated value')
                    if dim == 2 and kind == 's':
                        rec.close(float(np.ravel(D.value(*x))[0]), lin[0](*x), 1e-9, f'{key}:{r}:{w}:value', 'value')


# ------------------------------------------------------------------------------- data of forms
def form(task, rec):
    """stream function of a discrete velocity: its curl on each cell of the sample grid, by the same trapezoidal sums"""
    import impl
    A = impl.make(dict(task['desc']), task['N'])
    u = ph.vc.vector(lambda t, x, y: 1 + 0 * x, lambda t, x, y: -2 + 0 * x)
    F = A.forms['outer1']
    F.cf = u
    F[0.].reduce()
    for ddf in (1, 2):
        D = F.numeric.rws(0., ddf=ddf)
        key = f"{task['desc']['name']}:N{task['N']}:ddf{ddf}"
        rec.state(key)
        rec.trace()
        rec.step()
        X, Y = D._coo_dict_list
        U, V = D._val_dict_list
        for r in X:
            if task['desc']['name'] == '32':
                rec.close(U[r], 1 + 0 * X[r], 1e-7, f'{key}:u', 'u')
        ok, S = rec.guard(key, D.streamfunction)
        if not ok:
            continue
        S = S._val_dict_list[0]
        worst = 0
        for r in X:
            for ax in (0, 1):
                d = np.diff(S[r], axis=ax)
                mid = lambda a: (np.take(a, range(1, a.shape[ax]), axis=ax) + np.take(a, range(a.shape[ax] - 1), axis=ax)) / 2     # noqa
                want = mid(U[r]) * np.diff(Y[r], axis=ax) - mid(V[r]) * np.diff(X[r], axis=ax)
                worst = max(worst, np.abs(d - want).max())
        tol = 1e-9 if task['desc']['name'] == '32' else .05
        rec.close(worst, 0., tol, f'{key}:stream', 'differences of the stream function')
        for r in X:
            if task['desc']['name'] == '32':
                w = Y[r] + 2 * X[r]
                rec.close(S[r] - S[r][0, 0], w - w[0, 0], 1e-9, f'{key}:{r}', 'stream function')
