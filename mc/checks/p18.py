"""Quadrature rules and one-dimensional basis functions against exact moments and independently evaluated polynomials."""
import itertools
from fractions import Fraction as Fr
import numpy as np
import boot
from phyem.tools.quadrature import Quadrature, quadrature
from phyem.msepy.tools.polynomials import _OneDimPolynomial, Lobatto_polynomials_of_degree, polynomials_on_nodes

ID = 'P18'
RULE = ('every rule (Gauss, Lobatto) of every degree up to the bound x every monomial up to the exactness order; every '
        'combination of rules and degrees in two and three dimensions; every node distribution (Lobatto, Gauss-like, every composition of '
        'small integers as edge lengths) x every basis function x every set of evaluation points, in several orders and with sets '
        'closer to each other than any tolerance in one process')
ASSUMPTIONS = ['tolerances of 1e-11 (quadrature) and 1e-9 (basis functions) relative to the size of the numbers involved']
TIMEOUT = {'quick': 300, 'thorough': 3000}


def tasks(tier):
    pm = 20 if tier == 'quick' else 28
    out = [dict(name='rules', pm=pm)]
    out += [dict(name='tensor', dim=d, pm=m) for d, m in ((2, 8 if tier == 'quick' else 14), (3, 4 if tier == 'quick' else 6))]
    out += [dict(name='basis', kind='lobatto', lo=a, hi=a + 3) for a in range(1, 13 if tier == 'quick' else 19, 3)]
    out += [dict(name='basis', kind='nodes', lo=a, hi=a + 1, m=3 if tier == 'quick' else 4) for a in range(1, 6)]
    out += [dict(name='points', p=p) for p in ((1, 2, 3, 5) if tier == 'quick' else range(1, 9))]
    return out


def run(task, rec):
    globals()['_' + task['name']](task, rec)
    rec.trace()
    rec.sample(task)


def moment(k):
    return 0.0 if k % 2 else 2.0 / (k + 1)


def one_rule(x, w, p, cat, key, rec):
    n = p + 1
    rec.ok(len(x) == n and len(w) == n, key + '|size', f'{len(x)} points')
    rec.ok(bool(np.all(np.diff(x) > 0)) and x[0] >= -1 and x[-1] <= 1, key + '|increasing in [-1,1]')
    rec.ok(bool(np.all(w > 0)), key + '|positive weights')
    rec.close(x + x[::-1], 0, 1e-13, key + '|symmetric nodes')
    rec.close(w - w[::-1], 0, 1e-12, key + '|symmetric weights')
    if cat == 'Lobatto':
        rec.ok(x[0] == -1 and x[-1] == 1, key + '|ends', f'{x[0]} {x[-1]}')
    else:
        rec.ok(x[0] > -1 and x[-1] < 1, key + '|inside')
    top = 2 * p + 1 if cat == 'Gauss' else 2 * p - 1
    for k in range(top + 1):
        rec.step()
        rec.close(np.sum(w * x ** k), moment(k), 1e-11, f'{key}|x^{k}', 'moment')
    # the next even power must be missed: the rule is the one it says (not another exact one by accident)
    k = top + 1
    if p <= 8:
        rec.ok(abs(np.sum(w * x ** k) - moment(k)) > 1e-10, f'{key}|order', f'exact beyond order {top}')


def _rules(task, rec):
    for order in (0, 1):                 # the second round comes from the caches
        for cat in ('Gauss', 'Lobatto'):
            for p in range(0 if cat == 'Gauss' else 1, task['pm'] + 1):
                key = f'{cat}{p}'
                rec.state(key)
                for nm, q in (('class', lambda: Quadrature(p, cat)), ('function', lambda: quadrature(p, cat)),
                              ('tuple', lambda: Quadrature((p,), category=cat))):
                    good, qd = rec.guard(f'{key}|{nm}', q)
                    if not good:
                        continue
                    x, w = qd.quad
                    one_rule(np.asarray(x), np.asarray(w), p, cat, f'{key}|{nm}{order}', rec)
                    rec.close(qd.quad_nodes, x, 0, f'{key}|{nm}|quad_nodes')
                    rec.close(qd.quad_weights_ravel, w, 0, f'{key}|{nm}|quad_weights_ravel')
                    rec.close(qd.quad_ndim[0], x, 0, f'{key}|{nm}|quad_ndim')
                    rec.ok(qd.ndim == 1 and list(qd.p) == [p], f'{key}|{nm}|p')
    for cat in ('gauss', 'Chebyshev', ''):
        rec.raises(f'category {cat!r}', Quadrature, 3, cat)
    rec.raises('Lobatto 0', lambda: Quadrature(0, 'Lobatto').quad)
    rec.raises('negative', Quadrature, -1, 'Gauss')
    rec.raises('half', Quadrature, 2.5, 'Gauss')


def _tensor(task, rec):
    d = task['dim']
    opts = [('Gauss', p) for p in range(0, task['pm'] + 1)] + [('Lobatto', p) for p in range(1, task['pm'] + 1)]
    if d == 3:
        opts = [o for o in opts if o[1] <= 2 or o[0] == 'Gauss']
    for combo in itertools.product(opts, repeat=d):
        cats, ps = [c[0] for c in combo], tuple(c[1] for c in combo)
        key = '|'.join(f'{c}{p}' for c, p in combo)
        rec.state(key)
        makers = [('class', lambda: Quadrature(ps, category=cats))]
        if len(set(cats)) == 1:
            makers += [('function', lambda: quadrature(ps, cats[0])), ('same', lambda: Quadrature(list(ps), cats[0]))]
        else:
            makers += [('tuple', lambda: quadrature(ps, tuple(cats)))]
        makers += [('list', lambda: quadrature(list(ps), list(cats)))]
        for nm, mk in makers:
            good, q = rec.guard(f'{key}|{nm}', mk)
            if not good:
                continue
            one = [Quadrature(p, c).quad for c, p in combo]
            x, w = q.quad
            for i in range(d):
                rec.close(x[i], one[i][0], 1e-14, f'{key}|{nm}|nodes {i}')
                rec.close(w[i], one[i][1], 1e-14, f'{key}|{nm}|weights {i}')
            shape = tuple(p + 1 for p in ps)
            W = np.ones(shape)
            for i in range(d):
                W = W * np.asarray(one[i][1]).reshape([-1 if j == i else 1 for j in range(d)])
            X = np.meshgrid(*[o[0] for o in one], indexing='ij')
            nd = q.quad_ndim
            rv = q.quad_ndim_ravel
            rec.ok(len(nd) == d + 1 and len(rv) == d + 1, f'{key}|{nm}|quad_ndim size')
            for i in range(d):
                rec.close(nd[i], X[i], 1e-14, f'{key}|{nm}|quad_ndim {i}')
                rec.close(rv[i], X[i].ravel('F'), 1e-14, f'{key}|{nm}|ravel {i}')
            rec.close(nd[-1], W, 1e-14, f'{key}|{nm}|weights')
            rec.close(rv[-1], W.ravel('F'), 1e-14, f'{key}|{nm}|ravel weights')
            rec.close(q.quad_weights_ravel, W.ravel('F'), 1e-14, f'{key}|{nm}|weights ravel')
            top = [2 * p + 1 if c == 'Gauss' else 2 * p - 1 for c, p in combo]
            for k in itertools.product(*[sorted({0, t, max(t - 1, 0)}) for t in top]):
                rec.step()
                f = np.prod([X[i] ** k[i] for i in range(d)], axis=0)
                rec.close(np.sum(f * W), np.prod([moment(a) for a in k]), 1e-11, f'{key}|{nm}|x^{k}', 'moment')


# -- basis functions -----------------------------------------------------------------------------------------------------
def lag(nodes, x):
    nodes = np.asarray(nodes, np.longdouble)
    x = np.asarray(x, np.longdouble)
    n = len(nodes)
    L = np.ones((n, len(x)), np.longdouble)
    D = np.zeros((n, len(x)), np.longdouble)
    for i in range(n):
        others = [j for j in range(n) if j != i]
        for j in others:
            L[i] *= (x - nodes[j]) / (nodes[i] - nodes[j])
        for m in others:
            t = np.ones(len(x), np.longdouble) / (nodes[i] - nodes[m])
            for j in others:
                if j != m:
                    t = t * (x - nodes[j]) / (nodes[i] - nodes[j])
            D[i] += t
    E = -np.cumsum(D, axis=0)[:-1]
    return L.astype(float), D.astype(float), E.astype(float)


def points(p):
    g = np.polynomial.legendre.leggauss(p + 2)[0]
    return [np.linspace(-1, 1, 7), g, np.array([-1.0, 1.0]), np.array([0.3]), np.linspace(-1, 1, 7) * (1 - 3e-6),
            g + 1e-9 * (1 - abs(g)), np.array([0.3000001]), g[::-1].copy()]


def basis_check(bf, nodes, key, rec, rounds=2):
    nodes = np.asarray(nodes, float)
    p = len(nodes) - 1
    rec.ok(bf.p == p, key + '|p')
    rec.close(bf.nodes, nodes, 1e-12, key + '|nodes')
    gx, gw = np.polynomial.legendre.leggauss(p + 3)
    for r in range(rounds):
        for xi, x in enumerate(points(p)):
            L, D, E = lag(nodes, x)
            sc = 1 + abs(D).max()
            for nm, fn in (('node_basis', bf.node_basis), ('lagrange_basis', bf.lagrange_basis)):
                good, v = rec.guard(f'{key}|{nm}|{xi}', fn, x)
                if good:
                    rec.close(v, L, 1e-10 * (1 + abs(L).max()), f'{key}|{nm}|points {xi} round {r}', 'value')
            good, v = rec.guard(f'{key}|edge_basis|{xi}', bf.edge_basis, x)
            if good:
                rec.close(v, E, 1e-10 * sc * p, f'{key}|edge_basis|points {xi} round {r}', 'value')
                # derivative of a nodal expansion is the edge expansion of the differences
                c = np.cos(1 + 3.0 * np.arange(p + 1))
                rec.close(np.diff(c) @ v, c @ D, 1e-10 * sc * (p + 1) ** 2, f'{key}|derivative|points {xi} round {r}')
        rec.close(bf.node_basis(nodes), np.eye(p + 1), 1e-10, f'{key}|node Kronecker')
        M = np.zeros((p, p))
        for j in range(p):
            a, b = nodes[j], nodes[j + 1]
            M[:, j] = (bf.edge_basis((a + b) / 2 + (b - a) / 2 * gx) * gw).sum(axis=1) * (b - a) / 2
        rec.close(M, np.eye(p), 1e-9 * (1 + abs(M).max()), f'{key}|edge Kronecker')
        Lg, _, Eg = lag(nodes, gx)
        rec.close(bf.node_reference_mass_matrix, (Lg * gw) @ Lg.T, 1e-9 * (1 + abs(Lg).max() ** 2), f'{key}|node mass matrix')
        rec.close(bf.edge_reference_mass_matrix, (Eg * gw) @ Eg.T, 1e-9 * (1 + abs(Eg).max() ** 2), f'{key}|edge mass matrix')
    # monomials
    x = np.linspace(-1, 1, 11)
    for k in range(p + 1):
        rec.step()
        rec.close(nodes ** k @ bf.node_basis(x), x ** k, 1e-9 * (1 + abs(bf.node_basis(x)).max()), f'{key}|x^{k}')


def _basis(task, rec):
    lo, hi = task['lo'], task['hi']
    if task['kind'] == 'lobatto':
        for p in range(lo, hi):
            key = f'Lobatto{p}'
            rec.state(key)
            good, bf = rec.guard(key, Lobatto_polynomials_of_degree, p)
            if good:
                # Lobatto nodes: -1, 1 and the zeros of P_p'
                ref = np.concatenate([[-1], np.sort(np.polynomial.legendre.Legendre.basis(p).deriv().roots().real), [1]])
                rec.close(bf.nodes, ref, 1e-10, key + '|nodes')
                basis_check(bf, bf.nodes, key, rec)
            rec.ok(Lobatto_polynomials_of_degree(p) is bf, key + '|twice')
            basis_check(_OneDimPolynomial(np.array(bf.nodes)), bf.nodes, key + '|own', rec, 1)
        rec.raises('degree 0', Lobatto_polynomials_of_degree, 0)
    else:
        for n in range(lo, hi):
            m = task['m'] if n <= 4 else 2
            for parts in itertools.product(range(1, m + 1), repeat=n):
                s = sum(parts)
                nodes = np.array([-1 + 2 * float(Fr(sum(parts[:i]), s)) for i in range(n + 1)])
                key = f'nodes{parts}'
                rec.state(key)
                t = 'CUS-NODES@' + '-'.join('%.13f' % (a / s) for a in parts)
                good, bf = rec.guard(key, polynomials_on_nodes, t)
                if good:
                    basis_check(bf, nodes, key, rec, 1)
                t = 'nd@' + '='.join(str(round(float(a), 13)) for a in nodes)
                good, bf = rec.guard(key + 'nd', polynomials_on_nodes, t)
                if good:
                    basis_check(bf, nodes, key + 'nd', rec, 1)
                if n > 1:
                    # a distribution that differs by less than any rounding in the keys
                    near = nodes.copy()
                    near[1] += 2e-6
                    good, bf = rec.guard(key + 'near', lambda: _OneDimPolynomial(near))
                    if good:
                        basis_check(bf, near, key + ' moved by 2e-6', rec, 1)
        for bad in ('nd@-1=1=0', 'nd@-1=0', 'CUS-NODES@0.5-0.6', 'nd@0=1', 'x'):
            rec.raises(f'nodes {bad}', polynomials_on_nodes, bad)
        for bad in ([-1, 0, 0, 1], [-1, 0.5, 0.2, 1], [-1, 0.5], [-0.5, 1]):
            rec.raises(f'nodes {bad}', _OneDimPolynomial, np.array(bad, float))


def _points(task, rec):
    """every ordered pair of point sets; the answer to the second does not depend on the first, nor on what the caller
    does with the arrays afterwards"""
    p = task['p']
    base = np.linspace(-0.9, 0.95, 5)
    sets = [base, base + 1e-9, base + 1e-7, base * (1 + 4e-6), base[::-1].copy(), base[:4].copy(), -base, np.zeros(5), np.full(5, 1e-9)]
    sets += [np.array([0.0, 1e-9, 2e-9, 1.0, -1.0]), np.array([-1.0, 0.0, 1.0, 0.5, 0.25])]
    nodes = np.array(Lobatto_polynomials_of_degree(p).nodes)
    for i, j in itertools.product(range(len(sets)), repeat=2):
        for fn in ('node_basis', 'edge_basis'):
            bf = _OneDimPolynomial(nodes + 0.0)
            f = getattr(bf, fn)
            rec.state(i, j, fn)
            rec.step(4)
            x, y = sets[i].copy(), sets[j].copy()
            f(x)
            v = f(y)
            ref = lag(nodes, y)[0 if fn == 'node_basis' else 2]
            tol = 1e-11 * (1 + abs(ref).max()) * (p + 1)
            rec.close(v, ref, tol, f'p={p} {fn} sets {i},{j}', 'value after another point set')
            y[:] = 0.777                                     # the caller re-uses its array
            w = f(sets[j].copy())
            rec.close(w, ref, tol, f'p={p} {fn} sets {i},{j}|argument re-used', 'value')
            z = np.full(len(sets[j]), 0.777)
            rec.close(f(z), lag(nodes, z)[0 if fn == 'node_basis' else 2], tol, f'p={p} {fn} sets {i},{j}|re-used array', 'value')
