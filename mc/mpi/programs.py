"""What every rank runs. A program returns observations {name: (kind, value)}; kinds:

same    every rank must have it, and it is the value of the one-process run
any     ranks that have it (not None) agree with the one-process run; at least one has it
cell    {cell: array}: the cells of the ranks are disjoint, together they are those of the one-process run, with the same values
gm      {cell: numbers}: the same, up to one renumbering of the global dofs
set     list of hashables: the ranks' lists together are the list of the one-process run
"""
import os
import sys

import numpy as np
import scipy.sparse as sp

import impl

import phyem as ph
from phyem.src.config import RANK, SIZE, COMM, MASTER_RANK

T = 0.5
W = {2: [lambda t, x, y: np.sin(1.3 * x + y) + x * y + t, lambda t, x, y: np.cos(x - 0.7 * y) + y ** 2],
     3: [lambda t, x, y, z: np.sin(1.3 * x + y) + x * y * z + t, lambda t, x, y, z: np.cos(x - 0.7 * y) + y * z,
         lambda t, x, y, z: x ** 2 - z * y + np.sin(z)]}


SKIP = set()


def run(item):
    SKIP.clear()
    SKIP.update(item.get('skip', []))
    return globals()['prog_' + item['prog']](item)


def vc(dim, k, shift=0):
    f = W[dim][shift:] + W[dim][:shift]
    return ph.vc.scalar(f[0]) if k in (0, dim) else ph.vc.vector(*f)


def name_of(A):
    """cells by the place of their reference points"""
    out = {}
    for e in A.elems:
        p = [np.array([-.5, .3])] * A.dim
        out[e] = tuple(float(v) for v in np.round(np.asarray(A.mapping(e, *p)).ravel(), 7) + 0.)
    return out


def prog_forms(item):
    """the spaces of all orders on a mesh"""
    A = impl.make(item['desc'], item['N'])
    dim = A.dim
    nm = name_of(A)
    cell = lambda d: ('cell', {nm[e]: np.asarray(v) for e, v in d.items()})   # noqa
    O = {'cells': ('set', [nm[e] for e in A.elems])}
    G = [np.array([-.7, .1, .6])] * dim
    has_tri = COMM.allreduce(sum(A.triangle(e) for e in A.elems))
    cochains = {}
    for n, F in A.forms.items():
        k = int(n[-1])
        f = vc(dim, k)
        O[n + ' numbering'] = ('gm', {nm[e]: [int(i) for i in v] for e, v in A.gm(n).items()})
        g = F.cochain.gathering_matrix
        O[n + ' dofs'] = ('same', int(g.num_global_dofs))
        c = A.reduce(n, f)
        cochains[n] = c
        O[n + ' reduction'] = cell(c)
        F.cf = f
        attempt(O, n + ' error', 'same', lambda: F[T].error())
        attempt(O, n + ' norm', 'same', lambda: F[T].norm())
        for m, G_ in A.forms.items():
            if int(m[-1]) == k and m != n and m in cochains:
                attempt(O, f'{n} inner product {m}', 'same', lambda: F[T].inner_product(G_[T]))
        if k == dim or k == 0:
            attempt(O, n + ' mass', 'same', lambda: F[T].mass())
        if k < dim:
            O[n + ' d'] = cell(A.cob(n))
        r = A.rec(n, *G)
        O[n + ' reconstruction'] = cell({e: np.concatenate([np.asarray(v[0]), np.asarray(v[1])]) for e, v in r.items()})
        O[n + ' locations'] = ('set', locations(g, nm))
        if not has_tri:
            O[n + ' mass matrix'] = cell(A.M(n))
    return O


def attempt(O, name, kind, fn):
    """what one process refuses is not asked of several (a rank could wait for another one that refuses)"""
    if name in SKIP:
        return
    try:
        v = fn()
        O[name] = (kind, float(v) if isinstance(v, (int, float, np.integer, np.floating)) else v)
    except NotImplementedError:
        if SIZE > 1:
            raise
        O[name] = ('refused', None)


def locations(g, nm):
    """for every global dof the cells and the local numbers, as a set (numbers of the dofs themselves left out)"""
    out = {}
    for e in nm:
        for j, i in enumerate(g[e]):
            out.setdefault(int(i), []).append((nm[e], j))
    all_ = COMM.allgather(out)
    tot = {}
    for o in all_:
        for i, l in o.items():
            tot.setdefault(i, []).extend(l)
    return [tuple(sorted(l)) for l in tot.values()] if RANK == MASTER_RANK else []


# --------------------------------------------------------------------------------------------------------- systems
def prog_solve(item):
    """a mixed problem with conditions on two parts of the boundary"""
    import problems
    import checks.p23 as p23
    d, N, form, o, sides, ka, kb = (item[k] for k in ('desc', 'N', 'form', 'o', 'sides', 'ka', 'kb'))
    dim = d['dim']
    L = p23.FORM[form]
    P = problems.build(d, N, p23.define(form, o, dim, ka, kb), {p23.GA: sides, p23.GB: None})
    V = {}
    for n in list(L.unknowns) + list(L.given):
        V[n] = vc(dim, L.orders[L.given.get(n, n)](dim))
    nm = {e: tuple(float(v) for v in np.round(np.asarray(P.tgm.elements[e].ct.mapping(*[np.array([-.5, .3])] * dim)).ravel(), 7) + 0.)
          for e in P.tgm.elements}
    dyn = P.obj['ls'].apply()
    p23.impose(P, dyn, True, ka, kb, V)
    for n in L.given:
        P.form[n].cf = V[n]
        P.form[n][T].reduce()
    O = {}
    for sn, bm in P.sections.items():
        faces = bm.composition
        for n in L.unknowns:
            f = P.form[n]
            if f.space.abstract.k == dim:
                continue
            loc = bm.find_dofs(f, local=True)
            tot = bm.find_dofs(f, local=False)
            O[f'{sn} {n} local dofs'] = ('set', [(nm[e], int(j)) for e in loc for j in loc[e]])
            O[f'{sn} {n} number of dofs'] = ('same', len(set(int(i) for i in tot)))
            if n == 'u' and L.orders['u'](dim) == dim - 1 and (dim == 3 or o == 'outer'):
                g = vc(dim, 0)
                b = f.bi.with_vc_over_boundary_section(T, g, bm)
                O[f'{sn} boundary vector'] = ('cell', {nm[e]: np.asarray(b[e]) for e in b})
        O[f'{sn} faces'] = ('set', [(nm[e], i) for e, i in faces])
    s = dyn(T)
    pin = L.pin(ka, kb)
    if pin is not None:
        i = L.unknowns.index(pin)
        gm = P.form[pin].cochain.gathering_matrix
        e0 = sorted(COMM.allgather(min(nm.values())))[0]
        dof = COMM.allreduce(sum(int(gm[e][0]) for e in nm if nm[e] == e0))
        s.customize.set_dof(i, dof, 0.) if hasattr(s.customize, 'set_dof') else s.customize.set_local_dof(i, *pinned(nm, e0), 0.)
    als = s.assemble()
    A = als.solve.A
    O['shape'] = ('same', tuple(int(i) for i in A.shape))
    if item.get('matrix'):
        attempt(O, 'rank', 'any', lambda: A.rank)
        attempt(O, 'singularities', 'any', lambda: A.num_singularities)
        attempt(O, 'condition', 'any', lambda: A.condition_number)
        O['nnz'] = ('same', int(sum(A.nnz_of_row(i) for i in range(A.shape[0]))) if A.shape[0] < 80 else 0)
    for scheme, kw in item['schemes']:
        kw = dict(kw)
        if scheme != 'direct':
            kw['x0'] = 0
        r = als.solve(scheme, **kw)
        s.x.update(r[0])
        for n in L.unknowns:
            c = P.form[n][T].cochain
            O[f'{scheme} {n}'] = ('cell', {nm[e]: np.array(c[e]) for e in nm})
            P.form[n].cf = V[n]
            O[f'{scheme} {n} error'] = ('same', float(P.form[n][T].error()))
    return O


def pinned(nm, e0):
    mine = [e for e in nm if nm[e] == e0]
    return (mine[0], 0) if mine else (None, 0)


def prog_flow(item):
    """two steps of a nonlinear evolution problem, by Newton's method"""
    import problems
    import checks.p23 as p23
    from phyem.src.time_sequence import AbstractTimeSequence
    d, N = item['desc'], item['N']
    TSQ = AbstractTimeSequence()
    P = problems.build(d, N, p23.flow_define(TSQ, 0.3))
    TSQ.specify('constant', [0, .2, 2], 1)
    at = [TSQ['k'](k=n)() for n in range(3)]
    dyn = P.obj['nls'].apply()
    dim = d['dim']
    nm = {e: tuple(float(v) for v in np.round(np.asarray(P.tgm.elements[e].ct.mapping(*[np.array([-.5, .3])] * dim)).ravel(), 7) + 0.)
          for e in P.tgm.elements}
    for n, k in zip('wup', range(3)):
        P.form[n].cf = vc(dim, k)
        P.form[n][at[0]].reduce()
    O = {}
    for k in (1, 2):
        s = dyn(k=k)
        _, msg, info = s.solve([P.form[n] for n in 'uwp'], maxiter=10, atol=1e-11)
        for n in 'uwp':
            c = P.form[n][at[k]].cochain
            O[f'step {k} {n}'] = ('cell', {nm[e]: np.array(c[e]) for e in nm})
            O[f'step {k} {n} norm'] = ('same', float(P.form[n][at[k]].norm()))
    return O


# ----------------------------------------------------------------------------------------------------- saving, reading
def cochains(A, names):
    nm = name_of(A)
    return {f'{n} at {t}': ('cell', {nm[e]: np.array(A.forms[n][t].cochain[e]) for e in A.elems})
            for n in names for t in sorted(A.forms[n].cochain._tcd)}


def prog_save(item):
    A = impl.make(item['desc'], item['N'])
    names = item['names']
    for n in names:
        k = int(n[-1])
        for t in item['times']:
            A.reduce(n, vc(A.dim, k), t)
    O = cochains(A, names)
    if item['how'] == 'saveto':
        for n in names:
            A.forms[n].saveto(item['file'] + n)
    else:
        ph.save(*[A.forms[n] for n in names], filename=item['file'])
    return O


def prog_load(item):
    A = impl.make(item['desc'], item['N'])
    if item['how'] == 'saveto':
        for n in item['names']:
            A.forms[n].read(item['file'] + n)
    else:
        got = ph.read(item['file'])
        return {'objects': ('any', len(got) if got is not None else None)}
    return cochains(A, item['names'])


# ------------------------------------------------------------------------------------------------------- values
def prog_values(item):
    """values at points, interpolations, region-wise data, integrals"""
    A = impl.make(item['desc'], item['N'])
    dim = A.dim
    O = {}
    pts = item['points']
    for n, F in A.forms.items():
        k = int(n[-1])
        A.reduce(n, vc(dim, k))
        for p in pts:
            attempt(O, f'{n} at {p}', 'same', lambda: F[T].numeric.value(*p))
    attempt(O, 'integral', 'same', lambda: A.b.mesh.compute.integrate(vc(dim, 0), quad_degree=6, t=T))
    return O
