"""Discrete exterior derivative: integer incidence entries, d.d = 0 exactly, d commutes with reduction."""
from checks.common import *

ID = 'P01'
RULE = ('every mesh of the families (both implementations: predefined, chaotic, refined, triangulated, all two-cell '
        'patches with every starting vertex and vertex numbering, fans, 1d and 3d; periodic and not) x every degree of '
        'the list x every orientation and k x generic smooth fields; a state is one (mesh, degree, orientation, k); '
        'a transition is one application of a discrete derivative; fields with generic values make every row count')
ASSUMPTIONS = ['quadrature error of reducing smooth fields bounded per degree (1e-2 for N=1 curved down to 1e-7)']


def tasks(tier):
    out = []
    for d in predefined2(tier) + refined2(tier) + fans(tier) + meshes3(tier) + mp.family(tier):
        for N in degrees_for(d, tier):
            if uniform_ok(d, N):
                out.append([d, N])
    for p in patches(tier):
        out.append([p, 2])
        if tier != 'quick':
            out.append([p, 3])
    return group(out)


def run(task, rec):
    run_group(one, task, rec)


def one(task, rec):
    desc, N = task
    N = deg(N)
    key = f"{desc['name']}|{N}"
    good, a = rec.guard(key + '|build', impl.make, desc, N)
    if not good:
        return
    dim = desc['dim']
    for o in ('inner', 'outer'):
        Es = []
        for k in range(dim):
            E = a.E(f'{o}{k}')
            Es.append(E)
            g0, g1 = a.gm(f'{o}{k}'), a.gm(f'{o}{k + 1}')
            rec.state(key, o, k)
            for e in a.elems:
                D = E[e]
                rec.ok(D.shape == (len(g1[e]), len(g0[e])), f'{key}|{o}{k}|shape', f'E[{e}] {D.shape}')
                rec.ok(np.all((D == 0) | (D == 1) | (D == -1)), f'{key}|{o}{k}|entries', 'entry not in -1,0,1')
                rec.ok(np.all(np.any(D != 0, axis=1)), f'{key}|{o}{k}|zero-row', f'element {e} has a zero row')
        for k in range(dim - 1):
            for e in a.elems:
                P = Es[k + 1][e] @ Es[k][e]
                rec.step()
                rec.ok(np.all(P == 0), f'{key}|{o}{k}|dd', f'E{k + 1}E{k} != 0 in element {e}')
        for e in a.elems:   # constants are closed
            rec.ok(np.all(Es[0][e].sum(axis=1) == 0), f'{key}|{o}0|const', f'd(1) != 0 in element {e}')
    tol = tol_reduce(desc, N)
    for o, k, cf, dcf in sequences(desc, 2):
        if dcf is None:
            continue
        n0, n1 = f'{o}{k}', f'{o}{k + 1}'
        c0 = a.reduce(n0, cf)
        c1 = a.reduce(n1, dcf)
        cb = a.cob(n0)
        E = a.E(n0)
        for e in a.elems:
            rec.close(cb[e], c1[e], tol, f'{key}|{o}{k}|commute', f'd reduce - reduce d, element {e}')
            rec.close(E[e] @ c0[e], cb[e], 1e-11, f'{key}|{o}{k}|form-E', f'incidence matrix in element {e}')
            rec.step(2)
        F = a.forms[n0]
        F.cf = cf
        if dim > 1:
            # phyem's own exterior derivative of the continuous field is the same field
            dd = F.cf.exterior_derivative()
            c2 = a.reduce(n1, dd)
            for e in a.elems:
                rec.close(cb[e], c2[e], max(tol, 1e-5), f'{key}|{o}{k}|cf-d', f'cf.exterior_derivative, element {e}')
            # the derived form d(F)
            dF = F.d()
            c = dF[0.5].cochain
            for e in a.elems:
                rec.close(np.asarray(c[e] if a.kind == 'msehtt' else c.local[e]), cb[e], 1e-11,
                          f'{key}|{o}{k}|d()', f'd() cochain, element {e}')
        rec.trace()
    rec.sample(dict(mesh=desc['name'], degree=N, elements=len(a.elems)))
