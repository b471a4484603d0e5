"""All the nonlinear terms that can be written with three root forms (and a test form), their weak formulations, and their values by
direct integration of the reconstructed fields.

A term is (sa, sb, sc, op, kind, pattern, known): spaces of A, B and C ('i0' .. 'o3'), product, pairing, pattern, and which of A and
B are known."""
import itertools

import numpy as np
import phyem as ph

PRODUCTS = {'x1': 'cross_product', 'x2': 'Cross_Product', 'x3': 'CrossProduct', 'x4': 'crossProduct', 'm': 'multi', 'conv': 'convect'}
PATTERNS = ('AB|C', 'AB|dC', 'AdB|C', 'AdB|dC', 'A|BC', '*AB|C')
KNOWN = ('', 'A', 'B', 'AB')


def label(t):
    sa, sb, sc, op, kind, pat, known = t
    return f'{op}:{kind}:{pat}:{sa},{sb},{sc}:{known or "none"}'


def spaces(A):
    return {f'{o[0]}{k}': A.space(k, o) for o in ('inner', 'outer') for k in range(A.dim + 1)}


def term(A, B, C, op, kind, pat, factor=None):
    """the term, or an exception when it cannot be written"""
    d = lambda f: f.exterior_derivative()        # noqa

    def product(f, g, out):
        if op == 'm':
            return f.multi(g, out.space)
        return getattr(f, PRODUCTS[op])(g)
    if pat == 'A|BC':
        f0, f1 = A, product(B, C, A)
    else:
        f1 = d(C) if pat.endswith('dC') else C
        g = d(B) if 'dB' in pat else B
        if pat[0] == '*':
            f0 = product(A, g, C)
            f0 = ph.Hodge(f0)
        else:
            f0 = product(A, g, f1)
    return (ph.inner if kind == 'ip' else ph.dp)(f0, f1, factor=factor)


def candidates(A, SP, triples):
    """all (sa, sb, sc, op, kind, pattern) of which the term can be written"""
    for sa, sb, sc in triples:
        a = SP[sa].make_form(f'a_z{sa}{sb}{sc}', f'az {sa}{sb}{sc}')
        b = SP[sb].make_form(f'b_z{sa}{sb}{sc}', f'bz {sa}{sb}{sc}')
        c = SP[sc].make_form(f'c_z{sa}{sb}{sc}', f'cz {sa}{sb}{sc}')
        for op, kind, pat in itertools.product(PRODUCTS, ('ip', 'dp'), PATTERNS):
            try:
                term(a, b, c, op, kind, pat)
            except Exception:
                continue
            yield sa, sb, sc, op, kind, pat


def system(SP, forms, t, n, side, sign, finite, factor=None, at=None):
    """the weak formulation of
        (c, C) +- T(A, B, C) = (d, C),   (u, t_u) = (g_u, t_u) for u in the unknowns among A and B
    (T on the side `side`; with `at`, all forms at abstract instants: at[role]) and its system -> (unknowns, 'ls' or 'nls', the object). Raises where the library refuses"""
    sa, sb, sc, op, kind, pat, known = t
    if at is not None:
        forms = {k: f @ at[k[:-2] or k] for k, f in forms.items()}
    A, B, c, c0 = forms['A' + sa], forms['B' + sb], forms['c' + sc], forms['d' + sc]
    U = [(x, f, forms['g' + x + (sa if x == 'A' else sb)], SP[sa if x == 'A' else sb]) for x, f in (('A', A), ('B', B)) if x not in known]
    eqs, dic, tests = ['c = d'], dict(c=c, d=c0), [SP[sc]]
    for x, u, g, s in U:
        dic[f'u{x}'], dic[f'g{x}'] = u, g
        eqs.append(f'u{x} = g{x}')
        tests.append(s)
    pde = ph.pde(eqs, dic)
    pde.unknowns = [c] + [u for _, u, _, _ in U]
    wf = pde.test_with(tests, sym_repr=[rf't^{{{i}}}_{{{n}}}' for i in range(len(tests))])
    C = wf.test_forms[0]

    def make():
        return term(A, B, C, op, kind, pat, factor)
    kn = {'': [None], 'A': [A, [A]], 'B': [B, [B]], 'AB': [[A, B]]}[known]
    err = None
    for k in kn:
        try:
            T = make()
            if k is not None:
                T.add_extra_info({'known-forms': k})
            other = ph.inner(c if side == 'left' else c0, C)
            w = wf.derive.replace('0-0' if side == 'left' else '0-1', [T, other], [sign, '+'])
            finite()
            m = w.mp()
            break
        except Exception as e:
            err = err or e
    else:
        raise err
    try:
        return [x for x, *_ in U], 'ls', m.ls()
    except Exception:
        return [x for x, *_ in U], 'nls', m.nls()


# ------------------------------------------------------------------------------- values

def cross(a, b):
    """of vectors of 1 (along z), 2 or 3 components"""
    full = lambda v: [0, 0, v[0]] if len(v) == 1 else [v[0], v[1], 0] if len(v) == 2 else list(v)   # noqa
    x, y = full(a), full(b)
    return [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]


def in_space(v, n):
    """the n components of a vector of 3 which a form of n components has"""
    return [v[2]] if n == 1 else v[:n]


def multi(a, b):
    if len(a) == 1:
        return [a[0] * x for x in b]
    if len(b) == 1:
        return [x * b[0] for x in a]
    return [sum(x * y for x, y in zip(a, b))]
