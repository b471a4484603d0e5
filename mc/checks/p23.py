"""Discrete problems whose exact solution is in the discrete spaces, and conservation laws of discretisations."""
from checks.common import *
import sympy as sym
import problems
from problems import SIDES
import phyem as ph

ID = 'P23'
LEVEL = 'model_checking'
RULE = ('all the problems of a family: formulation (mixed with potential in the highest space, mixed with potential in the lowest, '
        'three-field Stokes) x orientation x implementation x meshes (uniform, non-uniform, sheared, several rotations and numberings '
        'of the cells) x degrees x every partition of the sides into two sections x every admissible kind of conditions x exact '
        'solutions in the discrete spaces, each solved and compared with the reduction of the exact solution; constraints '
        '(du = f for the coefficients) on curved meshes; all steps of linear and nonlinear evolution problems x schemes x '
        'orientation x meshes with their conservation laws')
ASSUMPTIONS = ['polynomial solutions on meshes of affine cells; the pin of an undetermined constant is one dof of the exact solution']
TIMEOUT = {'quick': 400, 'thorough': 3000}
T = 0.75
TOL = 1e-8
GA, GB = r'\Gamma_a', r'\Gamma_b'

U = lambda n, **k: M(n, 'crazy', dict(dict(element_layout=[2, 1], c=0.0, periodic=False), **k))   # noqa
U3 = lambda n, **k: M(n, 'crazy', dict(dict(element_layout=[1, 1, 2], c=0.0, periodic=False), **k), 3)   # noqa
# a sheared rectangle of two cells, with turned vertex lists
SH = {'a': [0, 0], 'b': [1, 0], 'c': [2.5, 0], 'd': [0, 1], 'e': [1, 1], 'f': [2.5, 1]}
HTT = [U('21'), U('w', element_layout=[[1, 2.5, 1], [2, 1]], bounds=[[0, 2], [-1, 0.5]]), M('rect', 'rectangle', dict(element_layout=2)),
       tqr('turn', [list('abed'), list('cfeb')], SH), tqr('turn2', [list('dabe'), list('bcfe')], SH)]
B2 = [[0, 1], [0, 1]]
PY = [mp.D('p21', 'crazy', [2, 1], c=0., periodic=False, bounds=B2),
      mp.D('pw', 'crazy', [[1, 2.5, 1], [2, 1]], c=0., periodic=False, bounds=[[0, 2], [-1, 0.5]])]
HTT3 = [U3('h112'), U3('hw', element_layout=[[1, 2], 1, 1], bounds=[[0, 2], [0, 1], [-1, 0]])]
PY3 = [mp.D('p3', 'crazy', [[1, 2], 1, 1], dim=3, c=0., periodic=False, bounds=[[0, 2], [0, 1], [-1, 0]])]
# cells whose mass matrices are integrated by the nodal (Lobatto) rule, which is exact up to degree 2N - 1 only
NODAL = ('21', 'w', 'rect', 'h112', 'hw')


def subsets(dim):
    s = SIDES[dim]
    for n in range(1, len(s)):
        for c in itertools.combinations(s, n):
            yield list(c)


import itertools   # noqa


def tasks(tier):
    out = []
    for D, dim, Ns in ((HTT + PY, 2, [1, 2, 3]), (HTT3 + PY3, 3, [1, 2])):
        for d in D:
            for N in Ns + ([[2, 3]] if dim == 2 and not d['name'].startswith('turn') else []):
                for form in ('high', 'low', 'stokes'):
                    if form == 'stokes' and dim == 3 and tier == 'quick' and d['name'] not in ('h112', 'p3'):
                        continue
                    for o in ('outer', 'inner') if dim == 2 or tier != 'quick' else ({'low': 'inner'}.get(form, 'outer'),):
                        if dim == 3 and N == 2 and tier == 'quick' and d['name'] not in ('h112', 'p3'):
                            continue
                        if N not in (1, 2) and tier == 'quick' and d['name'] not in ('w', 'pw'):
                            continue
                        out.append(dict(kind='exact', desc=d, N=N, form=form, o=o, all=tier != 'quick' or (dim == 2 and N == 1)))
    curved = [M('c21', 'crazy', dict(element_layout=[2, 1], c=0.15, periodic=False)), M('c13', 'crazy', dict(element_layout=[1, 3], c=0.1, periodic=False)),
              M('cyl', 'cylinder_channel', dict(element_layout=1)), M('w', 'crazy', dict(element_layout=[[1, 2.5, 1], [2, 1]], c=0.)),
              tqr('turn', [list('abed'), list('cfeb')], SH), mp.D('pc22', 'crazy', 2, c=.15, periodic=False, bounds=B2),
              mp.D('pw', 'crazy', [[1, 2.5, 1], [2, 1]], c=0., periodic=False, bounds=[[0, 2], [-1, 0.5]])]
    curved3 = [M('c3', 'crazy', dict(element_layout=[1, 2, 1], c=0.1, periodic=False), 3), mp.D('pc3', 'crazy', [2, 1, 1], dim=3, c=.1, periodic=False, bounds=B2 + [[0, 1]])]
    for d in curved + curved3:
        for N in ([1, 2] if tier == 'quick' else [1, 2, 3]):
            if N == 2 and d['dim'] == 3 and tier == 'quick':
                continue
            for o in ('outer', 'inner') if d['dim'] == 2 else ('outer',):
                for form in ('high', 'stokes'):
                    if d['name'] != 'cyl':
                        out.append(dict(kind='constraint', desc=d, N=N, form=form, o=o))
                for form in ('high', 'low'):
                    for scheme in range(len(SCHEMES)):
                        out.append(dict(kind='wave', desc=d, N=N, form=form, o=o, scheme=scheme))
            if d['dim'] == 2:
                for r in (0.3, 1e-3) if N == 1 or tier != 'quick' else (0.3,):
                    if N == 2 and tier == 'quick' and d['name'] not in ('c21', 'pc22'):
                        continue
                    out.append(dict(kind='flow', desc=d, N=N, r=r))
    return out


# weights of (old, new) instants of the two unknowns
SCHEMES = [dict(u=(.5, .5), p=(.5, .5)), dict(u=(0, 1), p=(0, 1)), dict(u=(0, 1), p=(.5, .5)), dict(u=(.5, .5), p=(0, 1)), dict(u=(1, 0), p=(0, 1)),
           dict(u=(0, 1), p=(1, 0))]


def run(task, rec):
    dict(exact=exact, constraint=constraint, wave=wave, flow=flow)[task['kind']](task, rec)


# ------------------------------------------------------------------------------------------- exact calculus
X = sym.symbols('x y z')
t_ = sym.symbols('t')


def d_(f, dim, o, k):
    """exterior derivative of a field given as a tuple of expressions"""
    D = lambda e, i: sym.diff(e, X[i])   # noqa
    if k == 0:
        if dim == 2 and o == 'outer':
            return (D(f[0], 1), -D(f[0], 0))
        return tuple(D(f[0], i) for i in range(dim))
    if k == dim - 1 and not (dim == 2 and o == 'inner'):
        return (sum(D(f[i], i) for i in range(dim)),)
    if dim == 2:
        return (D(f[1], 0) - D(f[0], 1),)
    return (D(f[2], 1) - D(f[1], 2), D(f[0], 2) - D(f[2], 0), D(f[1], 0) - D(f[0], 1))


def cd_(f, dim, o, k):
    """codifferential: the adjoint of d for fields which vanish at the boundary"""
    dual = 'inner' if o == 'outer' else 'outer'
    # d* of order k is, up to the sign, the d of order dim - k of the other orientation
    g = d_(f, dim, dual, dim - k)
    if dim == 3:
        s = {3: -1, 2: 1, 1: -1}[k]
    else:
        s = {('outer', 2): -1, ('outer', 1): 1, ('inner', 2): 1, ('inner', 1): -1}[(o, k)]
    return tuple(s * e for e in g)


def vc(f, dim):
    L = [sym.lambdify((t_,) + X[:dim], e + 0 * t_, 'numpy') for e in f]

    def wrap(g):
        if dim == 2:
            return lambda t, x, y: g(t, x, y) + 0. * x
        return lambda t, x, y, z: g(t, x, y, z) + 0. * x
    L = [wrap(g) for g in L]
    return ph.vc.scalar(L[0]) if len(L) == 1 else ph.vc.vector(*L)


def poly(deg, seed):
    """a polynomial with degree deg[i] in the direction i and all the coefficients"""
    e, i = 0, 0
    for p in itertools.product(*[range(n + 1) for n in deg]):
        i += 1
        c = sym.Rational(((seed * 7 + i * 5) % 11) - 5, 4) + sym.Rational(1, 8)
        m = 1
        for x, q in zip(X, p):
            m *= x ** q
        e += c * m
    return e * (1 + t_ / 3)


def member(N, dim, o, k, seed):
    """a field in the discrete space of order k on axes-parallel cells"""
    n = [N] * dim if isinstance(N, int) else list(N)
    if k == 0:
        return (poly(n, seed),)
    if k == dim:
        return (poly([q - 1 for q in n], seed),)
    out = []
    for i in range(dim):
        low = (k == 1 and not (dim == 2 and o == 'outer'))
        dg = [(q - 1 if j == i else q) if low else (q if j == i else q - 1) for j, q in enumerate(n)]
        out.append(poly(dg, seed + 3 * i))
    return tuple(out)


def capped(f, N, dim):
    """the terms of degree N - 1 at most in all directions"""
    n = [N] * dim if isinstance(N, int) else list(N)
    out = []
    for e in f:
        q = sym.Poly(sym.expand(e), *X[:dim])
        out.append(sum((c * sym.prod(x ** i for x, i in zip(X, m)) for m, c in q.terms() if all(i < j for i, j in zip(m, n))), sym.Integer(0)))
    return tuple(out)


def plus(a, b, s=1):
    return tuple(x + s * y for x, y in zip(a, b))


# ------------------------------------------------------------------------------------------------ problems
def parts(wf, i, nb):
    """integrate by parts the last term on the left of equation i; the boundary term goes to the right, or is dropped (trace of tests is 0)"""
    n = len(wf._term_dict[i][0])
    wf = wf.derive.integration_by_parts(f'{i}-{n - 1}')
    if not nb[i]:
        wf = wf.derive.delete(f'{i}-{n}')
    left = ', '.join(str(j) for j in range(n))
    return wf.derive.rearrange({i: f'{left} = {n}, {n + 1}' if nb[i] else f'{left} = {n}'})


class High:
    """(u, v) + (p, dv) = (r, v) + <tr * p, tr v>, (du, q) = (f, q):  u = r - d* p, du = f"""
    orders = dict(u=lambda n: n - 1, p=lambda n: n)
    given = dict(r='u', f='p')
    kinds = [('u',), ('*p',)]

    def pde(self, F):
        return ['u + ds_p = r', 'd_u = f'], dict(F, ds_p=F['p'].codifferential(), d_u=F['u'].exterior_derivative())

    def derive(self, wf, nb):
        return parts(wf, 0, nb)

    natural = dict(p=0)
    unknowns = 'up'

    def exact(self, s, dim, o):
        return dict(r=plus(s['u'], cd_(s['p'], dim, o, dim)), f=d_(s['u'], dim, o, dim - 1))

    def pin(self, a, b):
        return 'p' if a == b == ('u',) else None

    constraint = [('u', 'f')]


class Low:
    """(u, v) - (dp, v) = (r, v), (u, dq) = (f, q) + <tr * u, tr q>:  u = dp + r, d* u = f"""
    orders = dict(u=lambda n: 1, p=lambda n: 0)
    given = dict(r='u', f='p')
    kinds = [('p',), ('*u',)]
    natural = dict(u=1)
    unknowns = 'up'

    def pde(self, F):
        return ['u - d_p = r', 'ds_u = f'], dict(F, ds_u=F['u'].codifferential(), d_p=F['p'].exterior_derivative())

    def derive(self, wf, nb):
        return parts(wf, 1, nb)

    def exact(self, s, dim, o):
        return dict(r=plus(s['u'], d_(s['p'], dim, o, 0), -1), f=cd_(s['u'], dim, o, 1))

    def pin(self, a, b):
        return 'p' if a == b == ('*u',) else None

    constraint = []


class Stokes:
    """(w, s) - (u, ds) = (r, s) - <tr * u, tr s>, (dw, v) + (p, dv) = (f, v) + <tr * p, tr v>, (du, q) = (g, q)"""
    orders = dict(w=lambda n: n - 2, u=lambda n: n - 1, p=lambda n: n)
    given = dict(r='w', f='u', g='p')
    kinds = [('u', 'w'), ('u', '*u'), ('*p', '*u')]     # with (*p, w) the velocity is not determined
    natural = dict(u=0, p=1)
    unknowns = 'wup'

    def pde(self, F):
        return ['w - ds_u = r', 'd_w + ds_p = f', 'd_u = g'], dict(
            F, ds_u=F['u'].codifferential(), d_w=F['w'].exterior_derivative(), ds_p=F['p'].codifferential(),
            d_u=F['u'].exterior_derivative())

    def derive(self, wf, nb):
        return parts(parts(wf, 0, nb), 1, nb)

    def exact(self, s, dim, o):
        return dict(r=plus(s['w'], cd_(s['u'], dim, o, dim - 1), -1), f=plus(d_(s['w'], dim, o, dim - 2), cd_(s['p'], dim, o, dim)),
                    g=d_(s['u'], dim, o, dim - 1))

    def pin(self, a, b):
        return 'p' if a[0] == b[0] == 'u' else None

    constraint = [('u', 'g')]


FORM = dict(high=High(), low=Low(), stokes=Stokes())


def define(form, o, dim, ka, kb):
    """the problem with conditions ka on the first and kb on the second section"""
    L = FORM[form]

    def go(A, finite):
        S = {n: A.space(k(dim), o) for n, k in L.orders.items()}
        F = {n: S[n].make_form(n, n + ' unknown') for n in L.unknowns}
        F.update({n: S[s].make_form(n, n + ' given') for n, s in L.given.items()})
        eq, names = L.pde(F)
        pde = ph.pde(eq, names)
        pde.unknowns = [F[n] for n in L.unknowns]
        pde.bc.partition(GA, GB)
        tr = {}
        for g, ks in ((GA, ka), (GB, kb)):
            tr[g] = [ph.trace(ph.Hodge(F[k[1:]])) if k[0] == '*' else ph.trace(F[k]) for k in ks]
        pde.bc.define_bc({g: x if len(x) > 1 else x[0] for g, x in tr.items()})
        order = list(L.given.values())
        wf = pde.test_with([S[n] for n in order], sym_repr=[r't^{' + n + '}' for n in order])
        nb = {i: any('*' + n in ka + kb for n, j in L.natural.items() if j == i) for i in range(3)}
        wf = L.derive(wf, nb, )
        finite()
        return dict(F, ls=wf.mp().ls())
    return go


def exact(task, rec):
    d, N, form, o = task['desc'], task['N'], task['form'], task['o']
    dim = d['dim']
    L = FORM[form]
    htt = 'domain' not in d
    N_ = N if isinstance(N, int) else tuple(N)
    S = [x for x in subsets(dim)]
    if not task['all']:
        S = S[::3] if dim == 2 else S[::11]
    for sides in S:
        for ka, kb in itertools.product(L.kinds, repeat=2):
            if not task['all'] and ka == kb and sides is not S[0]:
                continue
            key = f"{d['name']}:N{N}:{form}:{o}:{'|'.join(sides)}:{','.join(ka)}:{','.join(kb)}"
            pair = [x for x in (sides, [y for y in SIDES[dim] if y not in sides]) if len(x) == 2 and x[0][0] == x[1][0]]
            if form == 'stokes' and pair and {ka, kb} == {('u', 'w'), ('*p', '*u')}:
                continue        # the velocity is not determined: a harmonic field between (or around) the opposite sides
            rec.state(key)
            rec.trace()
            try:
                one(task, rec, key, sides, ka, kb, L, htt, N_, dim)
            except NotImplementedError as e:
                rec.outcome(f'refused {e}'[:60])
            except Exception as e:
                import core
                rec.bad(key + ':raise', repr(e)[:300] + core.tb_tail(e, 3))


def one(task, rec, key, sides, ka, kb, L, htt, N, dim):
    d, o = task['desc'], task['o']
    P = problems.build(d, N, define(task['form'], o, dim, ka, kb), {GA: sides, GB: None})
    sol = {n: member(task['N'], dim, o, k(dim), i * 5 + 1) for i, (n, k) in enumerate(L.orders.items())}
    if task['form'] != 'high' and d['name'] in NODAL:
        sol = {n: capped(f, task['N'], dim) for n, f in sol.items()}
    giv = L.exact(sol, dim, o)
    V = {n: vc(f, dim) for n, f in {**sol, **giv}.items()}
    dyn = P.obj['ls'].apply()
    impose(P, dyn, htt, ka, kb, V)
    for n in L.given:
        P.form[n].cf = V[n]
        P.form[n][T].reduce()
    rec.step()
    s = dyn(T)
    want = {}
    for n in L.unknowns:
        P.form[n].cf = V[n]
        want[n] = local(P, n, P.form[n].reduce(V[n] @ T) if htt else P.form[n].reduce(T, update_cochain=False, target=V[n]))
    pin = L.pin(ka, kb)
    if pin is not None:
        i = L.unknowns.index(pin)
        s.customize.set_local_dof(i, elems(P, pin)[0], 0, float(want[pin][elems(P, pin)[0]][0]))
    als = s.assemble()
    x = als.solve('direct')[0] if htt else als.solve()[0]
    s.x.update(x)
    for n in L.unknowns:
        c = P.form[n][T].cochain
        got = local(P, n, c if htt else c.local)
        sc = max(1, max(np.abs(v).max() for v in want[n].values()))
        for e in got:
            rec.close(got[e], want[n][e], TOL * sc, key + ':' + n, f'coefficients of {n} in element {e}')
        rec.close(float(P.form[n][T].error()), 0, 1e-6 * sc, key + ':error:' + n, f'error of {n}')
    rec.outcome(task['form'] + (' pinned' if pin else ''))


def elems(P, n):
    g = P.form[n].cochain.gathering_matrix
    return list(g) if P.htt else list(range(g.num_elements))


def local(P, n, c):
    return {e: np.array(c[e]) for e in elems(P, n)}


# --------------------------------------------------------------------------------- constraints and conservation
def constraint(task, rec):
    """d u = f for the coefficients, on curved cells with arbitrary data"""
    d, N, form, o = task['desc'], task['N'], task['form'], task['o']
    dim = d['dim']
    L = FORM[form]
    S = list(subsets(dim))
    S = S[::3] if dim == 2 else S[::20]
    for sides in S:
        for ka, kb in itertools.product(L.kinds, repeat=2):
            if ka[0] == kb[0] == 'u' or (form == 'stokes' and {ka, kb} == {('u', 'w'), ('*p', '*u')}):
                continue
            key = f"{d['name']}:N{N}:{form}:{o}:constraint:{'|'.join(sides)}:{','.join(ka)}:{','.join(kb)}"
            rec.state(key)
            rec.trace()
            try:
                con(task, rec, key, sides, ka, kb, L, 'domain' not in d, N, dim)
            except NotImplementedError as e:
                rec.outcome(f'refused {e}'[:60])
            except Exception as e:
                import core
                rec.bad(key + ':raise', repr(e)[:300] + core.tb_tail(e, 3))


def con(task, rec, key, sides, ka, kb, L, htt, N, dim):
    d, o = task['desc'], task['o']
    P = problems.build(d, N, define(task['form'], o, dim, ka, kb), {GA: sides, GB: None})
    x, y, z = X
    wave_ = [sym.sin(2 * x + y + i) * (1 + t_) + x * y - i * y + (z * x if dim == 3 else 0) for i in range(8)]
    V = {}
    for i, n in enumerate(list(L.unknowns) + list(L.given)):
        k = L.orders[L.given.get(n, n)](dim)
        V[n] = vc(wave_[i:i + (1 if k in (0, dim) else dim)], dim)
    dyn = P.obj['ls'].apply()
    impose(P, dyn, htt, ka, kb, V)
    for n in L.given:
        P.form[n].cf = V[n]
        P.form[n][T].reduce()
    rec.step()
    s = dyn(T)
    als = s.assemble()
    x = als.solve('direct')[0] if htt else als.solve()[0]
    s.x.update(x)
    for a, b in L.constraint:
        E = coboundary(P, a)
        ua, fb = now(P, a, T), now(P, b, T)
        sc = max([np.abs(v).max() for v in ua.values()] + [1.])
        for e in ua:
            rec.close(E[e] @ ua[e], fb[e], TOL * sc, key, f'd {a} = {b} for the coefficients in element {e}')
    rec.outcome('constraint')


def impose(P, dyn, htt, ka, kb, V):
    for g, ks in ((GA, ka), (GB, kb)):
        for k in ks:
            n = k.lstrip('*')
            if htt:
                P.obj['ls'].config(('natural bc' if k[0] == '*' else 'essential bc', 1), place=P.sections[g], condition=V[n],
                                   root_form=P.form[n])
            else:
                tr = ph.trace(ph.Hodge(P.things[n])) if k[0] == '*' else ph.trace(P.things[n])
                dyn.bc.config(P.sections[g], form=tr if len(ks) > 1 else None)(V[n])


def coboundary(P, n):
    f = P.form[n]
    E = f.space.incidence_matrix(f.degree)[0] if P.htt else f.matrix.incidence
    return {e: dense(E[e]) for e in elems(P, n)}


def mass(P, n):
    f = P.form[n]
    m = f.space.mass_matrix(f.degree)[0] if P.htt else f.matrix.mass
    return {e: dense(m[e]) for e in elems(P, n)}


def now(P, n, t):
    c = P.form[n][t].cochain
    return local(P, n, c if P.htt else c.local)


def put(P, n, t, v):
    P.form[n][t].cochain = v if P.htt else np.array([v[e] for e in elems(P, n)])


def start(P, n, seed):
    """arbitrary global values of a form"""
    rng = np.random.default_rng(seed)
    g = P.form[n].cochain.gathering_matrix
    x = rng.standard_normal(max(int(np.max(np.asarray(g[e]))) for e in elems(P, n)) + 1)
    return {e: x[np.asarray(g[e])] for e in elems(P, n)}


def dot(A, a, b):
    return float(sum(a[e] @ A[e] @ b[e] for e in a))


def comb(*cv):
    return {e: sum(c * v[e] for c, v in cv) for e in cv[0][1]}


def wave(task, rec):
    """du/dt + d* p = 0, dp/dt - d u = 0 (or the same with d and d* exchanged): energy identity of each step, for all averages"""
    from phyem.src.time_sequence import AbstractTimeSequence
    d, N, form, o, sc = task['desc'], task['N'], task['form'], task['o'], SCHEMES[task['scheme']]
    dim = d['dim']
    TSQ = AbstractTimeSequence()
    L = FORM[form]

    def define_(A, finite):
        u, p = (A.space(L.orders[n](dim), o).make_form(n, n + ' unknown') for n in 'up')
        F = dict(u=u, p=p, du=u.time_derivative(), dp=p.time_derivative())
        if form == 'high':
            F.update(a=p.codifferential(), b=u.exterior_derivative())
        else:
            F.update(a=p.exterior_derivative(), b=u.codifferential())
        pde = ph.pde(['du + a = 0', 'dp - b = 0'], F)
        pde.unknowns = [u, p]
        wf = pde.test_with([u.space, p.space], sym_repr=['v', 'q'])
        i = 0 if form == 'high' else 1
        wf = wf.derive.integration_by_parts(f'{i}-1')
        wf = wf.derive.delete(f'{i}-2')
        td = wf.td
        td.set_time_sequence(TSQ)
        td.define_abstract_time_instants('k-1', 'k')
        td.differentiate('0-0', 'k-1', 'k')
        td.differentiate('1-0', 'k-1', 'k')
        td.average('0-1', p, [x for x, y in zip(('k-1', 'k'), sc['p']) if y])
        td.average('1-1', u, [x for x, y in zip(('k-1', 'k'), sc['u']) if y])
        dt = TSQ.make_time_interval('k-1', 'k')
        wf = td()
        wf.unknowns = [u @ TSQ['k'], p @ TSQ['k']]
        for j, f, g, ex in ((0, u, p, form == 'low'), (1, p, u, form == 'high')):
            w = sc['p' if j == 0 else 'u']
            new = [True] if w == (0, 1) else [False]
            if w == (.5, .5):
                at = [(g @ TSQ[x]).exterior_derivative() if ex else g @ TSQ[x] for x in ('k', 'k-1')]
                wf = wf.derive.split(f'{j}-1', 'f0', at, ['+', '+'], factors=[1 / 2, 1 / 2])
                new = [True, False]
            wf = wf.derive.split(f'{j}-0', 'f0', [f @ TSQ['k'], f @ TSQ['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
            new = [True, False] + new
            wf = wf.derive.rearrange({j: ','.join(str(i) for i, x in enumerate(new) if x) + ' = ' +
                                      ','.join(str(i) for i, x in enumerate(new) if not x)})
        finite()
        return dict(u=u, p=p, ls=wf.mp().ls())

    key = f"{d['name']}:N{N}:wave:{form}:{o}:{task['scheme']}"
    rec.trace()
    P = problems.build(d, N, define_)
    steps, h = 4, 0.15
    TSQ.specify('constant', [0, steps * h, steps], 1)
    at = [TSQ['k'](k=n)() for n in range(steps + 1)]
    dyn = P.obj['ls'].apply()
    Mu, Mp = mass(P, 'u'), mass(P, 'p')
    for i, n in enumerate('up'):
        put(P, n, at[0], start(P, n, i))
    for k in range(1, steps + 1):
        rec.state(key, k)
        rec.step()
        try:
            s = dyn(k=k)
            als = s.assemble()
            x = als.solve('direct')[0] if P.htt else als.solve()[0]
            s.x.update(x)
        except Exception as e:
            import core
            return rec.bad(key + ':raise', repr(e)[:300] + core.tb_tail(e, 3))
        u0, u1, p0, p1 = now(P, 'u', at[k - 1]), now(P, 'u', at[k]), now(P, 'p', at[k - 1]), now(P, 'p', at[k])
        um, pm = (comb((w[0], a), (w[1], b)) for w, a, b in ((sc['u'], u0, u1), (sc['p'], p0, p1)))
        e0 = max(dot(Mu, u0, u0) + dot(Mp, p0, p0), dot(Mu, u1, u1) + dot(Mp, p1, p1))
        lhs = dot(Mu, comb((1, u1), (-1, u0)), um) + dot(Mp, comb((1, p1), (-1, p0)), pm)
        rec.close(lhs, 0, 1e-9 * e0, f'{key}:k{k}:energy', 'energy identity of the step')
        if task['scheme'] == 0:
            rec.close(dot(Mu, u1, u1) + dot(Mp, p1, p1), dot(Mu, u0, u0) + dot(Mp, p0, p0), 1e-9 * e0, f'{key}:k{k}:conserved', 'energy')
        if task['scheme'] == 1:
            rec.ok(dot(Mu, u1, u1) + dot(Mp, p1, p1) <= dot(Mu, u0, u0) + dot(Mp, p0, p0) + 1e-12, f'{key}:k{k}:decay', 'energy grows')
        big, small = ('p', 'u') if form == 'high' else ('u', 'p')
        E = coboundary(P, small)
        b0, b1, sm = (p0, p1, um) if form == 'high' else (u0, u1, pm)
        sg = 1 if form == 'high' else -1
        for e in b0:
            rec.close((b1[e] - b0[e]) / h, sg * E[e] @ sm[e], 1e-8 * max(1, np.abs(b1[e]).max() / h), f'{key}:k{k}:pointwise',
                      f'd{big}/dt = d {small} for the coefficients in element {e}')
    rec.outcome('wave ' + form)


def flow_define(TSQ, r):
    def define_(A, finite):
        w, u, p = (A.space(k, 'outer').make_form(n, n + ' unknown') for k, n in enumerate('wup'))
        F = dict(w=w, u=u, p=p, du_dt=u.time_derivative(), wxu=w.cross_product(u), d_w=w.exterior_derivative(), ds_p=p.codifferential(),
                 ds_u=u.codifferential(), d_u=u.exterior_derivative())
        pde = ph.pde(['du_dt + wxu + d_w - ds_p = 0', 'w - ds_u = 0', 'd_u = 0'], F)
        pde.unknowns = [u, w, p]
        wf = pde.test_with([u.space, w.space, p.space], sym_repr=['v', 's', 'q'])
        wf = wf.derive.integration_by_parts('0-3')
        wf = wf.derive.integration_by_parts('1-1')
        wf = wf.derive.delete('0-4')
        wf = wf.derive.delete('1-2')
        td = wf.td
        td.set_time_sequence(TSQ)
        td.define_abstract_time_instants('k-1', 'k')
        td.differentiate('0-0', 'k-1', 'k')
        td.average('0-1', w, ['k-1', 'k'])
        td.average('0-1', u, ['k-1', 'k'])
        td.average('0-2', w, ['k-1', 'k'])
        td.average('0-3', p, ['k'])
        td.average('1-0', w, ['k'])
        td.average('1-1', u, ['k'])
        td.average('2-0', u, ['k'])
        dt = TSQ.make_time_interval('k-1', 'k')
        wf = td()
        new, old = TSQ['k'], TSQ['k-1']
        wf.unknowns = [u @ new, w @ new, p @ new]
        wf = wf.derive.split('0-0', 'f0', [u @ new, u @ old], ['+', '-'], factors=[1 / dt, 1 / dt])
        wf = wf.derive.split('0-2', 'f0', [(w @ a).cross_product(u @ b) for a in (old, new) for b in (old, new)], ['+'] * 4,
                             factors=[1 / 4] * 4)
        wf = wf.derive.split('0-6', 'f0', [(w @ new).exterior_derivative(), (w @ old).exterior_derivative()], ['+', '+'],
                             factors=[r / 2, r / 2])
        wf = wf.derive.rearrange({0: '0, 3, 4, 5, 6, 8 = 1, 2, 7'})
        wf.terms['0-1'].add_extra_info({'known-forms': w @ old})
        wf.terms['0-2'].add_extra_info({'known-forms': u @ old})
        wf.terms['0-7'].add_extra_info({'known-forms': [w @ old, u @ old]})
        finite()
        return dict(u=u, w=w, p=p, nls=wf.mp().nls())
    return define_


def flow(task, rec):
    """du/dt + w x u + r dw - d* p = 0, w = d* u, du = 0 without conditions (zero pressure and tangential velocity, weakly)"""
    from phyem.src.time_sequence import AbstractTimeSequence
    d, N, r = task['desc'], task['N'], task['r']
    TSQ = AbstractTimeSequence()

    define_ = flow_define(TSQ, r)
    key = f"{d['name']}:N{N}:flow:r{r}"
    rec.trace()
    P = problems.build(d, N, define_)
    steps, h = 4, 0.1
    TSQ.specify('constant', [0, steps * h, steps], 1)
    at = [TSQ['k'](k=n)() for n in range(steps + 1)]
    dyn = P.obj['nls'].apply()
    Mu, Mw = mass(P, 'u'), mass(P, 'w')
    Eu, Ew = coboundary(P, 'u'), coboundary(P, 'w')
    a = start(P, 'w', 3)
    put(P, 'u', at[0], {e: 0.5 * Ew[e] @ a[e] for e in a})
    put(P, 'w', at[0], {e: 0.1 * v for e, v in start(P, 'w', 4).items()})
    put(P, 'p', at[0], {e: 0 * v for e, v in start(P, 'p', 5).items()})
    for k in range(1, steps + 1):
        rec.state(key, k)
        rec.step()
        try:
            s = dyn(k=k)
            _, msg, info = s.solve([P.form[n] for n in 'uwp'], maxiter=12, atol=1e-11)
        except Exception as e:
            import core
            return rec.bad(key + ':raise', repr(e)[:300] + core.tb_tail(e, 3))
        u0, u1, w0, w1 = now(P, 'u', at[k - 1]), now(P, 'u', at[k]), now(P, 'w', at[k - 1]), now(P, 'w', at[k])
        um, wm = comb((.5, u0), (.5, u1)), comb((.5, w0), (.5, w1))
        E0, E1 = dot(Mu, u0, u0), dot(Mu, u1, u1)
        for e in u1:
            rec.close(Eu[e] @ u1[e], 0 * (Eu[e] @ u1[e]), 1e-9 * max(1, np.abs(u1[e]).max()), f'{key}:k{k}:div', f'divergence in element {e}')
        # (r d w, u) tested with the mean velocity
        dis = sum(um[e] @ Mu[e] @ Ew[e] @ wm[e] for e in um)
        rec.close(E1 - E0, -2 * h * r * dis, 1e-8 * max(E0, E1), f'{key}:k{k}:energy', 'kinetic energy balance of the step')
        rec.close(dot(Mw, w1, w1), sum(u1[e] @ Mu[e] @ Ew[e] @ w1[e] for e in u1), 1e-8 * max(dot(Mw, w1, w1), 1), f'{key}:k{k}:enstrophy',
                  'vorticity against velocity')
        if k > 1:
            rec.close(dis, dot(Mw, wm, wm), 1e-8 * max(dis, 1), f'{key}:k{k}:dissipation', 'dissipation is the enstrophy')
    rec.outcome('flow')
