import numpy as np
import scipy.sparse as sp
from meshes import *       # noqa
from fields import *       # noqa
import impl
from impl import flat
import mp


def degrees_for(desc, tier):
    if 'domain' in desc:
        d = desc['dim']
        if d == 1:
            return [1, 2, 3, 5]
        if d == 2:
            return [1, 3, [2, 3]] if tier == 'quick' else [1, 2, 3, 5, [2, 3], [3, 1]]
        return [1, 2, [1, 2, 3]] if tier == 'quick' else [1, 2, 3, [1, 2, 3], [3, 1, 2]]
    tri = 'trf' in desc['kw'] or desc['cfg'] == 'meshpy' or (isinstance(desc['cfg'], list) and 5 in desc['cfg'][1])
    if desc['dim'] == 2:
        ds = [1, 2, 3] if tier == 'quick' else [1, 2, 3, 4, 5]
        if not tri:
            ds = ds + [[2, 3]] + ([[3, 1], [1, 4]] if tier != 'quick' else [])
            if desc['name'] in CUSTOM or tier != 'quick':
                ds = ds + [[[1, 2, 1], [2, 3]], [[2, 1, 1], [1, 1]]]          # own node distributions
        return ds
    ds = [1, 2] if tier == 'quick' else [1, 2, 3]
    return ds + [[1, 2, 3]]


def dense(M_):
    return M_.toarray() if sp.issparse(M_) else np.asarray(M_)


def curved(desc):
    return bool(desc['kw'].get('c')) or desc.get('domain') == 'cylinder_channel' or desc.get('cfg') in ('cylinder_channel', 'chaotic')


def patchy(desc):
    return desc['name'][:2] in ('QQ', 'QT', 'TT') or desc['name'].startswith('fan')


def deg(N):
    return tuple(N) if isinstance(N, list) else N


def deg_list(N, dim):
    return [len(n) if isinstance(n, (list, tuple)) else n for n in N] if isinstance(N, (list, tuple)) else [N] * dim


def nmin(N):
    return min(deg_list(N, 1))


CUSTOM = ('crazy2c0', 'crazy2c0.1', 'quad', 'crazyB')


def uniform_ok(desc, N):
    """anisotropic degrees only make sense where the local axes of neighbours line up"""
    if not isinstance(N, (list, tuple)):
        return True
    if 'domain' in desc:
        return desc['domain'] != 'cylinder_channel'
    return desc['cfg'] in ('crazy', 'rectangle', 'quad', 'periodic slice', 'backward_step') and 'trf' not in desc['kw'] \
        and 'ts' not in desc['kw']


def gcochain(F, t, vec):
    """local cochain dict from a global vector"""
    gm = F.cochain.gathering_matrix
    return {e: vec[np.asarray(gm[e])] for e in gm}


def tol_reduce(desc, N):
    """quadrature error allowance when a smooth non-polynomial field is integrated over (curved) cells"""
    n = nmin(N)
    if curved(desc) or desc['kw'].get('periodic') or desc.get('cfg') == 'periodic slice':
        return {1: 3e-2 if desc.get('cfg') == 'periodic slice' else 1e-2, 2: 5e-4}.get(n, 2e-5)
    return {1: 5e-5, 2: 1e-6}.get(n, 1e-7)


def group(tasks, size=6):
    """[mesh, degree] tasks -> lists of them which run one after another in one process, so that whatever one leaves behind
    meets the others; all the degrees of a mesh and a few meshes together.  Large 3d meshes stay alone."""
    out, cur = [], []
    for t in tasks:
        d = t[0]
        big = d['dim'] == 3 and (d['kw'].get('periodic') or d['cfg' if 'cfg' in d else 'domain'] == 'periodic slice'
                                 or d['kw'].get('element_layout') == 3)
        if big:
            out.append([t])
            continue
        if cur and (len(cur) >= size and d['name'] != cur[-1][0]['name'] or len(cur) >= 2 * size
                    or cur[-1][0]['dim'] != d['dim'] or ('domain' in cur[-1][0]) != ('domain' in d)):
            out.append(cur)
            cur = []
        cur.append(t)
    if cur:
        out.append(cur)
    return [dict(group=g) for g in out]


def run_group(one, task, rec):
    for t in task['group']:
        one(t, rec)
