"""Continuous fields: every composition of operators against exact Taylor arithmetic on the base fields."""
import itertools
import math
import numpy as np
import sympy as sym
import boot
import phyem as ph
from phyem.tools.vector_calculus import scalar, vector, tensor
from phyem.tools.functions.time_space._1d.wrappers.scalar import T1dScalar
from phyem.tools.functions.time_space._2d.wrappers.scalar import T2dScalar
from phyem.tools.functions.time_space._2d.wrappers.vector import T2dVector
from phyem.tools.functions.time_space._2d.wrappers.tensor import T2dTensor
from phyem.tools.functions.time_space._3d.wrappers.scalar import T3dScalar
from phyem.tools.functions.time_space._3d.wrappers.vector import T3dVector
from phyem.tools.functions.time_space._3d.wrappers.tensor import T3dTensor

ID = 'P19'
RULE = ('every well-typed composition of the operators of continuous fields up to depth 2 (depth 3 on the thorough tier, first two '
        'levels complete) over base fields with analytic, partly given, constant and numerical derivatives, in 2d and 3d (1d: time '
        'and space derivative), each evaluated at several points and times and compared with exact truncated Taylor arithmetic; '
        'every derivative slot of every field class with a right and several wrong analytic derivatives on a mesh')
ASSUMPTIONS = ['derivatives not given analytically are central differences with a fixed step: the tolerance grows with the number '
               'of numerical differentiations (2e-7; 2e-5 in 2d and 2e-3 in 3d for two), at most two are composed']
TIMEOUT = {'quick': 400, 'thorough': 3400}
K = 3


# -- truncated Taylor arithmetic ------------------------------------------------------------------------------------------
class Jet:
    """values of all derivatives up to order K at a set of points; c[a] = D^a f (not divided by a!)"""
    n = None

    def __init__(s, c, ok=K):
        s.c = c            # dict multi-index -> array
        s.ok = ok          # orders known exactly

    def d(s, i):
        out = {}
        for a in IDX[s.n]:
            b = list(a)
            b[i] += 1
            b = tuple(b)
            out[a] = s.c[b] if sum(b) <= s.ok else None
        return type(s)({a: v for a, v in out.items() if v is not None}, s.ok - 1)

    def _bin(s, o, f):
        ok = min(s.ok, o.ok)
        return type(s)({a: f(a) for a in IDX[s.n] if sum(a) <= ok}, ok)

    def __add__(s, o):
        return s._bin(o, lambda a: s.c[a] + o.c[a])

    def __sub__(s, o):
        return s._bin(o, lambda a: s.c[a] - o.c[a])

    def __neg__(s):
        return type(s)({a: -v for a, v in s.c.items()}, s.ok)

    def __mul__(s, o):
        if isinstance(o, (int, float)):
            return type(s)({a: o * v for a, v in s.c.items()}, s.ok)

        def f(a):
            tot = 0
            for b in itertools.product(*[range(q + 1) for q in a]):
                co = 1
                for q, r in zip(a, b):
                    co *= math.comb(q, r)
                tot = tot + co * s.c[b] * o.c[tuple(q - r for q, r in zip(a, b))]
            return tot
        return s._bin(o, f)

    def compose(s, derivs):
        """phi(s), derivs = list of values of phi, phi', phi'', phi''' at s"""
        zero = (0,) * s.n
        du = type(s)({a: (v if a != zero else 0 * v) for a, v in s.c.items()}, s.ok)
        one = type(s)({a: (np.ones_like(v) if a == zero else 0 * v) for a, v in s.c.items()}, s.ok)
        out, p = None, one
        for k in range(s.ok + 1):
            term = type(s)({a: v * derivs[k] / math.factorial(k) for a, v in p.c.items()}, s.ok)
            out = term if out is None else out + term
            p = p * du
        return out

    @property
    def v(s):
        return s.c[(0,) * s.n]


class Jet2(Jet):
    n = 2


class Jet3(Jet):
    n = 3


class Jet4(Jet):
    n = 4


JETS = {2: Jet2, 3: Jet3, 4: Jet4}
IDX = {n: [a for a in itertools.product(range(K + 1), repeat=n) if sum(a) <= K] for n in (2, 3, 4)}
VARS = sym.symbols('t x y z')


def jet(expr, pts):
    n = len(pts)
    vs = VARS[:n]
    c = {}
    for a in IDX[n]:
        e = expr
        for v, k in zip(vs, a):
            for _ in range(k):
                e = sym.diff(e, v)
        f = sym.lambdify(vs, e, 'numpy')
        c[a] = np.broadcast_to(np.asarray(f(*pts), float), pts[1].shape).copy()
    return JETS[n](c)


def fn(expr, n, jit=True):
    """a plain function (t, x[, y[, z]]) of the expression"""
    f = sym.lambdify(VARS[:n], expr, 'numpy')
    if n == 2:
        return lambda t, x: f(t, x) + 0 * x
    if n == 3:
        return lambda t, x, y: f(t, x, y) + 0 * x
    return lambda t, x, y, z: f(t, x, y, z) + 0 * x


# -- a field: what phyem has and what it has to be -------------------------------------------------------------------------
class F:
    def __init__(s, kind, obj, ref, num, name):
        s.kind = kind       # 's', 'v', 't'
        s.obj = obj
        s.ref = ref         # nested list of lists of jets: one per evaluation batch
        s.num = num         # how many numerical differentiations are inside the components
        s.name = name


def each(f, *refs):
    return [f(*r) for r in zip(*refs)]


def sderiv(u, i):
    return u.d(i)


SH = sym.Rational(1, 2)


def bases(dim, pts):
    t, x, y, z = VARS
    n = dim + 1
    R = sym.Rational
    if dim == 2:
        S = [sym.sin(x + 2 * y) + t * x * y + 3, sym.cos(x) * sym.exp(y / 2) + 2 + t ** 2, x ** 2 - y * R(3, 2) + 5 + 0 * t]
        V = [(sym.sin(y) + t * x, x * y + t ** 2), (sym.cos(x - y), sym.sin(x + t) + y ** 2), (x + 2 * y, sym.S(0) * x + 3 * x)]
        T = [(sym.sin(x) * y, x + t * y, sym.cos(x * y), x ** 2 - t)]
    else:
        S = [sym.sin(x + 2 * y - z) + t * x * z + 3, sym.cos(x) * sym.exp(z / 2) + y + t ** 2]
        V = [(sym.sin(y + z) + t * x, x * y - z * t, sym.cos(x) + z * y), (x * z + t, sym.sin(x + t) + y ** 2, z * y - x),
             (x + 2 * y, y - 3 * z, sym.S(0) + x)]
        T = [(sym.sin(x) * y, x + t * y, z, sym.cos(x * y), x ** 2 - t, x * z, y, z * t, sym.sin(z))]
    out = []
    args = VARS[:n]
    SC, VE, TE = (T2dScalar, T2dVector, T2dTensor) if dim == 2 else (T3dScalar, T3dVector, T3dTensor)
    D = lambda e: [fn(sym.diff(e, a), n) for a in args]
    for i, e in enumerate(S):
        ref = [jet(e, p) for p in pts]
        f = fn(e, n)
        if i == 0:
            out.append(F('s', scalar(f), ref, 1, f's{i}'))
        elif i == 1:
            d = D(e)
            if dim == 2:
                dd = [fn(sym.diff(e, a, b), n) for a, b in ((t, t), (x, x), (x, y), (y, x), (y, y))]
                o = SC(f, derivative=d, second_derivative=dd)
            else:
                o = SC(f, derivative=d)
            out.append(F('s', o, ref, 0, f's{i}'))
        else:
            o = SC(f, steady=True, derivative=[None, fn(sym.diff(e, x), n), None])
            out.append(F('s', o, ref, 1, f's{i}'))
    for i, es in enumerate(V):
        ref = [[jet(e, p) for e in es] for p in pts]
        fs = [fn(e, n) for e in es]
        if i == 0:
            out.append(F('v', vector(*fs), ref, 1, f'v{i}'))
        elif i == 1:
            J = [[fn(sym.diff(e, a), n) for a in args[1:]] for e in es]
            td = [fn(sym.diff(e, t), n) for e in es]
            out.append(F('v', VE(*fs, Jacobian_matrix=J, time_derivative=td), ref, 0, f'v{i}'))
        else:
            # partly given, with zeros, steady
            J = [[(0 if sym.diff(e, a) == 0 else fn(sym.diff(e, a), n)) if (r + q) % 2 == 0 or sym.diff(e, a) == 0 else None
                  for q, a in enumerate(args[1:])] for r, e in enumerate(es)]
            out.append(F('v', VE(*fs, steady=True, Jacobian_matrix=J), ref, 1, f'v{i}'))
    # zero component
    es = (V[0][0],) + (sym.S(0) * x,) * (dim - 1)
    out.append(F('v', vector(fn(es[0], n), *([0] * (dim - 1))), [[jet(e, p) for e in es] for p in pts], 1, 'vz'))
    for i, es in enumerate(T):
        ref = [[[jet(es[dim * r + q], p) for q in range(dim)] for r in range(dim)] for p in pts]
        out.append(F('t', tensor(*[fn(e, n) for e in es]), ref, 1, f't{i}'))
    return out


def val(u, kind):
    if kind == 's':
        return [u.v]
    if kind == 'v':
        return [q.v for q in u]
    return [q.v for r in u for q in r]


def got(o, kind, t, X):
    w = o(t, *X)
    if kind == 't':
        return [q for r in w for q in r]
    return list(w)


# -- the operators: name, kinds, phyem call, reference on one batch, result kind, number of differentiations ---------------
def scale(u, kind, c):
    if kind == 's':
        return u * c
    if kind == 'v':
        return [q * c for q in u]


def unary(dim):
    X = range(1, dim + 1)
    ops = [
        ('grad', 's', lambda o: o.gradient, lambda u: [u.d(i) for i in X], 'v', 1),
        ('dt', 's', lambda o: o.time_derivative, lambda u: u.d(0), 's', 1),
        ('neg', 's', lambda o: -o, lambda u: -u, 's', 0),
        ('dt', 'v', lambda o: o.time_derivative, lambda u: [q.d(0) for q in u], 'v', 1),
        ('div', 'v', lambda o: o.divergence, lambda u: sum_([u[i].d(i + 1) for i in range(dim)]), 's', 1),
        ('neg', 'v', lambda o: -o, lambda u: [-q for q in u], 'v', 0),
        ('*2.5', 'v', lambda o: o * 2.5, lambda u: [q * 2.5 for q in u], 'v', 0),
        ('3*', 'v', lambda o: 3 * o, lambda u: [q * 3 for q in u], 'v', 0),
        ('dt', 't', lambda o: o.time_derivative, lambda u: [[q.d(0) for q in r] for r in u], 't', 1),
    ]
    if dim == 2:
        ops += [
            ('curl', 's', lambda o: o.curl, lambda u: [u.d(2), -u.d(1)], 'v', 1),
            ('Lap', 's', lambda o: o.Laplacian, lambda u: u.d(1).d(1) + u.d(2).d(2), 's', 2),
            ('exp', 's', lambda o: o.exp, lambda u: u.compose([np.exp(u.v)] * (K + 1)), 's', 0),
            ('log', 's', lambda o: o.log(), lambda u: u.compose([np.log(u.v), 1 / u.v, -1 / u.v ** 2, 2 / u.v ** 3]), 's', 0),
            ('abs', 's', lambda o: o.abs, lambda u: u * 1 if np.all(u.v > 0) else jsign(u), 's', 0),
            ('*2.5', 's', lambda o: o * 2.5, lambda u: u * 2.5, 's', 0),
            ('3*', 's', lambda o: 3 * o, lambda u: u * 3, 's', 0),
            ('grad', 'v', lambda o: o.gradient, lambda u: [[q.d(1), q.d(2)] for q in u], 't', 1),
            ('curl', 'v', lambda o: o.curl, lambda u: [[q.d(2), -q.d(1)] for q in u], 't', 1),
            ('rot', 'v', lambda o: o.rot, lambda u: u[1].d(1) - u[0].d(2), 's', 1),
            ('Lap', 'v', lambda o: o.Laplacian, lambda u: [q.d(1).d(1) + q.d(2).d(2) for q in u], 'v', 2),
            ('norm', 'v', lambda o: o.norm, lambda u: jsqrt(u[0] * u[0] + u[1] * u[1]), 's', 0),
            ('div', 't', lambda o: o.divergence, lambda u: [r[0].d(1) + r[1].d(2) for r in u], 'v', 1),
            ('rot', 't', lambda o: o.rot, lambda u: [r[1].d(1) - r[0].d(2) for r in u], 'v', 1),
        ]
    else:
        ops += [('curl', 'v', lambda o: o.curl,
                 lambda u: [u[2].d(2) - u[1].d(3), u[0].d(3) - u[2].d(1), u[1].d(1) - u[0].d(2)], 'v', 1)]
    return ops


def binary(dim):
    add = lambda a, b: [p + q for p, q in zip(a, b)]
    sub = lambda a, b: [p - q for p, q in zip(a, b)]
    conv = lambda a, b: sum_([b[i] * a.d(i + 1) for i in range(dim)])
    ops = [
        ('+', 'ss', lambda a, b: a + b, lambda a, b: a + b, 's', 0),
        ('-', 'ss', lambda a, b: a - b, lambda a, b: a - b, 's', 0),
        ('*', 'ss', lambda a, b: a * b, lambda a, b: a * b, 's', 0),
        ('conv', 'sv', lambda a, b: a.convection_by(b), conv, 's', 1),
        ('+', 'vv', lambda a, b: a + b, add, 'v', 0),
        ('-', 'vv', lambda a, b: a - b, sub, 'v', 0),
        ('dot', 'vv', lambda a, b: a.dot(b), lambda a, b: sum_([p * q for p, q in zip(a, b)]), 's', 0),
        ('conv', 'vv', lambda a, b: a.convection_by(b), lambda a, b: [conv(q, b) for q in a], 'v', 1),
    ]
    if dim == 2:
        cr = lambda a, b: a[0] * b[1] - a[1] * b[0]
        ops += [
            ('cross', 'vv', lambda a, b: a.cross_product(b), cr, 's', 0),
            ('x', 'vv', lambda a, b: a.x(b), cr, 's', 0),
            ('cross', 'vs', lambda a, b: a.cross_product(b), lambda a, b: [b * a[1], -(b * a[0])], 'v', 0),
            ('cross', 'sv', lambda a, b: a.cross_product(b), lambda a, b: [-(a * b[1]), a * b[0]], 'v', 0),
            ('*', 'sv', lambda a, b: a * b, lambda a, b: [a * q for q in b], 'v', 0),
            ('tensor', 'vv', lambda a, b: a.tensor_product(b), lambda a, b: [[p * q for q in b] for p in a], 't', 0),
        ]
    else:
        ops += [('cross', 'vv', lambda a, b: a.cross_product(b),
                 lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], 'v', 0)]
    return ops


def sum_(l):
    o = l[0]
    for q in l[1:]:
        o = o + q
    return o


def jsqrt(u):
    s = np.sqrt(u.v)
    return u.compose([s, .5 / s, -.25 / s ** 3, .375 / s ** 5])


def jsign(u):
    sg = np.sign(u.v)
    return type(u)({a: sg * v for a, v in u.c.items()}, u.ok)


def order_left(u):
    while isinstance(u, list):
        u = u[0]
    return u.ok


def minabs(f):
    return min(float(np.min(np.abs(r.v))) for r in f.ref)


def positive(f):
    return all(np.all(r.v > 0.05) for r in f.ref)


def admissible(op, fs):
    name, kinds = op[0], op[1]
    if any(order_left(f.ref) - op[5] < 0 for f in fs):
        return False
    if name == 'log':
        return positive(fs[0])
    if name == 'abs':
        return minabs(fs[0]) > 0.05
    if name == 'exp':
        return all(np.all(np.abs(r.v) < 6) for r in fs[0].ref)
    if name == 'norm':
        return all(np.all(r[0].v ** 2 + r[1].v ** 2 > 0.05) for r in fs[0].ref)
    return True


# central differences: step 1e-4 (2d), 1e-6 (3d): 3e-12 / 2e-10 of rounding per difference, squared for two
TOL = {1: {0: 1e-11, 1: 2e-7, 2: 2e-5}, 2: {0: 1e-11, 1: 2e-7, 2: 2e-5}, 3: {0: 1e-11, 1: 2e-7, 2: 2e-3}}


def apply(op, fs, pts, rec, dim):
    """-> the new field or None"""
    num = max(f.num for f in fs)
    # numerical differentiations so far: stored as .nd, the base flag .num says whether a derivative would be numerical
    nd = max(f.nd for f in fs)
    new = nd + op[5]
    if new > 2:
        return None
    name = f"{op[0]}({','.join(f.name for f in fs)})"
    key = f'{dim}d {name}'
    ref = each(op[3], *[f.ref for f in fs])
    good, o = rec.guard(key, op[2], *[f.obj for f in fs])
    if not good:
        return None
    r = F(op[4], o, ref, 1, name)
    r.nd = new
    evaluate(r, pts, rec, dim, key)
    return r


def evaluate(r, pts, rec, dim, key):
    rec.state(key)
    for rep in (0, 1):
        for i, p in enumerate(pts):
            t = float(p[0])
            rec.step()
            good, v = rec.guard(f'{key}|evaluate', got, r.obj, r.kind, t, p[1:])
            if not good:
                return
            w = val(r.ref[i], r.kind)
            if not rec.ok(len(v) == len(w), f'{key}|components', f'{len(v)} components'):
                return
            sc = 1 + max(float(np.max(np.abs(a))) for a in w)
            for c, (a, b) in enumerate(zip(v, w)):
                rec.close(np.broadcast_to(a, b.shape), b, TOL[dim][r.nd] * sc * growth(r, i), f'{key}|component {c} batch {i}', 'value')
            if rep == 0 and i == 0:
                for nm, g in (('[t]', lambda: r.obj[t](*p[1:])), ('@t', lambda: r.obj @ t)):
                    if dim == 1 and nm == '@t':
                        continue
                    good, u = rec.guard(f'{key}|{nm}', g)
                    if good and nm == '[t]':
                        u = [q for z in u for q in z] if r.kind == 't' else list(u)
                        for c, (a, b) in enumerate(zip(u, v)):
                            rec.close(a, b, 0, f'{key}|{nm}|{c}', 'value')


def growth(r, i):
    """allow for the size of the higher derivatives the difference quotients see"""
    if r.nd == 0:
        return 1
    u = r.ref[i]
    while isinstance(u, list):
        u = u[0]
    m = 1.0
    stack = [r.ref[i]]
    while stack:
        q = stack.pop()
        if isinstance(q, list):
            stack += q
        else:
            m = max(m, *(float(np.max(np.abs(v))) for v in q.c.values()))
    return m


def points(dim):
    a = [np.array([[0.13, 0.71], [-0.42, 0.95]]), np.array([[0.33, -0.21], [0.62, 0.44]]), np.array([[-0.53, 0.27], [0.81, 0.12]])]
    b = [np.array([0.4, -0.9, 0.25]), np.array([-0.3, 0.66, 0.7]), np.array([0.9, 0.05, -0.45])]
    return [[np.float64(0.3)] + a[:dim], [np.float64(1.7)] + b[:dim]]


def ones_like_t(pts):
    return [[np.full(p[1].shape, p[0])] + p[1:] for p in pts]


# ------------------------------------------------------------------------------------------------------------------------
PARTS = 8


def tasks(tier):
    out = [dict(name='compose', dim=d, part=i, tier=tier) for d in (2, 3) for i in range(PARTS)]
    out += [dict(name='oned'), dict(name='meshcheck', dim=2), dict(name='meshcheck', dim=3), dict(name='misc'), dict(name='lines')]
    return out


def run(task, rec):
    globals()['_' + task['name']](task, rec)
    rec.trace()
    rec.sample(task)


def _compose(task, rec):
    dim = task['dim']
    pts = ones_like_t(points(dim))
    ev = points(dim)
    base = bases(dim, pts)
    for f in base:
        f.nd = 0
        if task['part'] == 0:
            evaluate(f, ev, rec, dim, f'{dim}d {f.name}')
    un, bi = unary(dim), binary(dim)
    deep = task['tier'] != 'quick'

    def expand(fields, others, silent=False):
        new = []
        r_ = rec if not silent else Null()
        for f in fields:
            for op in un:
                if op[1] == f.kind and admissible(op, [f]):
                    new.append((op, [f]))
            for op in bi:
                for g in others:
                    for pair in ((f, g), (g, f)):
                        if op[1] == pair[0].kind + pair[1].kind and admissible(op, pair):
                            new.append((op, list(pair)))
        return new

    class Null:
        def __getattr__(s, k):
            return lambda *a, **q: (True, a[1](*a[2:])) if k == 'guard' and callable(a[1]) else True

    one = expand(base, base)
    seen = set()
    level1 = []
    for i, (op, fs) in enumerate(one):
        nm = op[0] + ','.join(f.name for f in fs)
        if nm in seen:
            continue
        seen.add(nm)
        r = apply(op, fs, ev, rec if len(seen) % PARTS == task['part'] else Null(), dim)
        if r is not None:
            level1.append(r)
    mine = [r for j, r in enumerate(level1) if j % PARTS == task['part']]
    level2 = []
    for r in mine:
        partners = base if deep else [b for b in base if b.name in ('s0', 'v1', 'v2')]
        for op, fs in expand([r], partners):
            q = apply(op, fs, ev, rec, dim)
            if q is not None:
                level2.append(q)
    if deep:
        for r in level2:
            for op, fs in expand([r], [b for b in base if b.name in ('s1', 'v1')]):
                apply(op, fs, ev, rec, dim)
    rec.outcome(f'{dim}d compositions')


def _oned(task, rec):
    t, x = VARS[:2]
    pts = [[np.float64(0.3), np.array([0.1, -0.7, 0.45])], [np.float64(1.2), np.array([[0.2, 0.9], [-0.4, 0.0]])]]
    full = ones_like_t(pts)
    for i, e in enumerate([sym.sin(x) * t + x ** 2, sym.exp(x / 2) + t ** 2 * x, sym.cos(3 * x) + 0 * t]):
        f = F('s', scalar(fn(e, 2)), [jet(e, p) for p in full], 1, f's{i}')
        f.nd = 0
        evaluate(f, pts, rec, 1, f'1d {f.name}')
        ops = [('dt', 's', lambda o: o.time_derivative, lambda u: u.d(0), 's', 1), ('dx', 's', lambda o: o.derivative, lambda u: u.d(1), 's', 1),
               ('neg', 's', lambda o: -o, lambda u: -u, 's', 0)]
        lev = [f]
        for _ in range(3):
            lev = [q for q in (apply(op, [g], pts, rec, 1) for g in lev for op in ops if admissible(op, [g])) if q is not None]


def _meshcheck(task, rec):
    """attaching a mesh verifies the given derivatives: right ones are accepted, wrong ones refused, in every slot"""
    import meshes
    import impl
    dim = task['dim']
    d = [q for q in (meshes.predefined2('quick') if dim == 2 else meshes.meshes3('quick')) if 'cfg' in q and q['cfg'] == 'crazy'
         and not q['kw'].get('periodic')][0]
    a = impl.make(d, 1)
    tpm = find_mesh(a)
    t, x, y, z = VARS
    n = dim + 1
    args = VARS[:n]
    if dim == 2:
        S, V = sym.sin(x + 2 * y) + t * x * y, (sym.sin(y + x) + t * x, x * y * t + x ** 2)
    else:
        S, V = sym.sin(x + 2 * y - z) + t * x * z, (sym.sin(y + z + x) + t * x * y, x * y * z - z * t, sym.cos(x + y) + z * y * t)
    SC, VE = (T2dScalar, T2dVector) if dim == 2 else (T3dScalar, T3dVector)

    def wrongs(e, a_, direction):
        r = sym.diff(e, a_)
        out = {'sign': -r, 'shift': r + sym.Rational(1, 10), 'twice': 2 * r}
        for b in args:
            for c in args:
                if b != c and sym.simplify(r.subs(b, c) - r) != 0:
                    out[f'{b}->{c}'] = r.subs(b, c)
        return {k: v for k, v in out.items() if sym.simplify(v - r) != 0}

    def both(key, right, wrong):
        rec.state(key)
        good, o = rec.guard(key + '|right', right)
        if good:
            rec.ok(o.mesh is tpm, key + '|mesh kept')
        for k, w in wrong:
            rec.state(key, k)
            rec.raises(f'{key}|wrong {k}', w)

    # first derivatives of scalars
    for i, a_ in enumerate(args):
        mk = lambda e, i=i: (lambda: SC(fn(S, n), derivative=[fn(e, n) if j == i else None for j in range(n)], mesh=tpm))
        both(f'{dim}d scalar d{a_}', mk(sym.diff(S, a_)), [(k, mk(w)) for k, w in wrongs(S, a_, a_).items()])
    if dim == 2:
        for i, (p, q) in enumerate(((t, t), (x, x), (x, y), (y, x), (y, y))):
            G = S + t ** 3 * x
            mk = lambda e, i=i: (lambda: SC(fn(G, n), second_derivative=[fn(e, n) if j == i else None for j in range(5)], mesh=tpm))
            both(f'2d scalar dd{p}{q}', mk(sym.diff(G, p, q)), [(k, mk(w)) for k, w in wrongs(sym.diff(G, p), q, q).items()])
    for c in range(dim):
        for i, a_ in enumerate(args[1:]):
            mk = lambda e, c=c, i=i: (lambda: VE(*[fn(v, n) for v in V], mesh=tpm, Jacobian_matrix=[
                [fn(e, n) if (r, q) == (c, i) else None for q in range(dim)] for r in range(dim)]))
            both(f'{dim}d vector d{c}/d{a_}', mk(sym.diff(V[c], a_)), [(k, mk(w)) for k, w in wrongs(V[c], a_, a_).items()])
        mk = lambda e, c=c: (lambda: VE(*[fn(v, n) for v in V], mesh=tpm, time_derivative=[fn(e, n) if r == c else None for r in range(dim)]))
        both(f'{dim}d vector d{c}/dt', mk(sym.diff(V[c], t)), [(k, mk(w)) for k, w in wrongs(V[c], t, t).items()])


def find_mesh(a):
    return a.b.mesh


def _misc(task, rec):
    from phyem.tools.gen_piece_wise import genpiecewise
    from phyem.tools.functions.region_wise_wrapper import RegionWiseFunctionWrapper as RW
    x = np.linspace(-1, 1, 9)
    y = np.linspace(0, 1, 9) ** 2
    # piecewise: every choice of where each of two conditions holds (4 patterns each) x default or not x scalar or function pieces
    conds = [x < 0, x >= 0, y > 0.3, np.zeros(9, bool), np.ones(9, bool)]
    funs = [lambda a, b: a + 2 * b, 3.5, lambda a, b: -a * b]
    for c0, c1 in itertools.product(range(len(conds)), repeat=2):
        for f0, f1, f2 in itertools.product(range(3), repeat=3):
            for default in (False, True):
                key = f'piecewise {c0}{c1} {f0}{f1}{f2} {default}'
                rec.state(key)
                C = [conds[c0], conds[c1] & ~conds[c0]]
                fl = [funs[f0], funs[f1]] + ([funs[f2]] if default else [])
                good, v = rec.guard(key, genpiecewise, (x, y), C, fl)
                if not good:
                    continue
                ref = np.zeros(9)
                ev = lambda f: f(x, y) if callable(f) else np.full(9, f)
                if default:
                    ref = ev(fl[2])
                ref = np.where(C[1], ev(fl[1]), ref)
                ref = np.where(C[0], ev(fl[0]), ref)
                rec.close(v, ref, 1e-14, key, 'value')
    # region-wise fields
    s = [scalar(lambda t, x, y: x + t), scalar(lambda t, x, y: x * y)]
    v = [vector(lambda t, x, y: x + t, lambda t, x, y: y), vector(lambda t, x, y: x * y, lambda t, x, y: t + 0 * x)]
    for nm, fs, k in (('scalar', s, 1), ('vector', v, 2)):
        a, b = RW({0: fs[0], 1: fs[1]}), RW({0: fs[1], 1: fs[0]})
        for on, o, f in (('+', a + b, lambda p, q: p + q), ('-', a - b, lambda p, q: p - q), ('neg', -a, lambda p, q: -p)):
            for r in (0, 1):
                rec.state(nm, on, r)
                w = o[r](0.4, x, y)
                p, q = a[r](0.4, x, y), b[r](0.4, x, y)
                for i in range(k):
                    rec.close(w[i], f(p[i], q[i]), 1e-14, f'region-wise {nm} {on} {r} {i}')
        rec.raises('region-wise: different regions', lambda: a + RW({0: fs[0]}))


def _lines(task, rec):
    from phyem.tools.miscellaneous.geometries.m2n2 import StraightSegment2, Point2
    P = {'a': (0, 0), 'b': (1, 0), 'c': (1, 1), 'd': (0, 2), 'e': (0.3, -0.7)}
    segs = [(p, q) for p, q in itertools.permutations(P, 2)]
    f = [lambda t, x, y: 1 + x + t, lambda t, x, y: 5 - y * t]
    g = [lambda t, x, y: 2 * x * y + 7, lambda t, x, y: -3 + 0 * x]
    inside = [0, 0.25, 0.5, 1]

    def on(pt, s):
        p, q = np.array(P[s[0]], float), np.array(P[s[1]], float)
        d, w = q - p, np.array(pt) - p
        cr = d[0] * w[1] - d[1] * w[0]
        l = w @ d / (d @ d)
        return abs(cr) < 1e-9 and -1e-9 <= l <= 1 + 1e-9

    pts = []
    for s in segs:
        for l in inside + [-0.3, 1.4]:
            pts.append((1 - l) * np.array(P[s[0]], float) + l * np.array(P[s[1]], float))
    pts += [np.array([0.5, 0.01]), np.array([3.0, 4.0])]
    pts = np.unique(np.round(np.array(pts), 12), axis=0)
    for s1, s2 in itertools.combinations(segs, 2):
        if set(s1) == set(s2):
            continue
        mk = lambda s: StraightSegment2(P[s[0]], P[s[1]])
        good, objs = rec.guard(f'segments {s1}{s2}', lambda: (mk(s1), mk(s2)))
        if not good:
            return
        for kind in ('v', 's', 'c'):
            key = f'on lines {s1}{s2} {kind}'
            rec.state(key)
            if kind == 'v':
                good, o = rec.guard(key, ph.vc.m2n2_vector_on_lines, (objs[0], (f[0], f[1])), (objs[1], T2dVector(g[0], g[1])))
                F1, F2, k = f, g, 2
            elif kind == 'c':
                good, o = rec.guard(key, ph.vc.m2n2_vector_on_lines, (objs[0], (2, -1.5)), (objs[1], (g[0], 0)))
                F1, F2, k = [lambda t, x, y: 2, lambda t, x, y: -1.5], [g[0], lambda t, x, y: 0], 2
            else:
                good, o = rec.guard(key, ph.vc.m2n2_scalar_on_lines, (objs[0], f[0]), (objs[1], g[0]))
                F1, F2, k = f, g, 1
            if not good:
                continue
            ref = np.zeros((k, len(pts)))
            for i, p in enumerate(pts):
                for s, G in ((s2, F2), (s1, F1)):
                    if on(p, s):
                        ref[:, i] = [float(q(0.6, p[0], p[1])) for q in G[:k]]
            rec.step(len(pts))
            X, Y = pts[:, 0].copy(), pts[:, 1].copy()
            for shape in ((-1,), (1, -1)):
                good, v = rec.guard(key + '|call', o, 0.6, X.reshape(shape), Y.reshape(shape))
                if good:
                    for i in range(k):
                        rec.close(np.asarray(v[i]).ravel(), ref[i], 1e-12, f'{key}|component {i}', 'value')
            for i in (0, len(pts) // 2, len(pts) - 1):
                good, v = rec.guard(key + '|number', o, 0.6, float(X[i]), float(Y[i]))
                if good:
                    rec.close([float(q) for q in v], ref[:, i], 1e-12, f'{key}|point {i}', 'value')
            if kind == 'v':
                # components one by one
                for i in range(2):
                    good, v = rec.guard(key + '|component', o._vs_[i] if hasattr(o, '_vs_') else (lambda *q: o(*q)[i]), 0.6, X, Y)
                    if good:
                        rec.close(v, ref[i], 1e-12, f'{key}|component function {i}', 'value')
