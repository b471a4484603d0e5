"""msepy counterparts: build the predefined domains with one form per space."""
import numpy as np
import phyem as ph


def D(name, domain, layout, dim=2, **kw):
    return dict(name=name, domain=domain, layout=layout, dim=dim, kw=kw)


def family(tier):
    out = []
    ks = [1, 2, [2, 3]] if tier == 'quick' else [1, 2, 3, [2, 3], [3, 1], [2, 4]]
    for K in ks:
        for c in (0., 0.1):
            out.append(D(f'mp-crazy{K}c{c}', 'crazy', K, c=c, periodic=False, bounds=[[0, 1], [0, 1]]))
    out.append(D('mp-crazyB', 'crazy', [2, 3], c=0.05, periodic=False, bounds=[[0, 2], [-1, 0.5]]))
    for c in (0, 0.1):
        out.append(D(f'mp-crazyWc{c}', 'crazy', [[1, 2.5], [2, 1, 1]], c=c, periodic=False, bounds=[[0, 1], [0, 2]]))
    for K in (3, [3, 4]):
        out.append(D(f'mp-crazyP{K}', 'crazy', K, c=0.1, periodic=True, bounds=[[0, 1], [0, 2]]))
    out.append(D('mp-multi', 'crazy_multi', [2, 1], c=0.05, periodic=False, bounds=[[0, 1], [0, 1]]))
    out.append(D('mp-bstep', 'backward_step', 1))
    out.append(D('mp-bstep2', 'backward_step', [2, 1]))
    out.append(D('mp-cyl', 'cylinder_channel', 1))
    ks = [1, [1, 2, 3]] if tier == 'quick' else [1, 2, [1, 2, 3], [2, 1, 2]]
    for K in ks:
        for c in (0., 0.1):
            out.append(D(f'mp-crazy3-{K}c{c}', 'crazy', K, dim=3, c=c, periodic=False,
                         bounds=[[0, 1], [0, 1], [0, 1.5]]))
    out.append(D('mp-crazy3P', 'crazy', 3, dim=3, c=0.05, periodic=True, bounds=[[0, 1], [0, 1], [0, 1]]))
    for K in (1, 2, 5):
        out.append(D(f'mp-1d{K}', 'crazy', K, dim=1, c=0.1, periodic=False, bounds=[[0, 1.5]]))
    return out


class Built:
    pass


def build(desc, N, orientations=('inner', 'outer')):
    dim = desc['dim']
    ph.config.set_embedding_space_dim(dim)
    M = ph.manifold(dim, periodic=bool(desc['kw'].get('periodic', False)))
    m = ph.mesh(M)
    ph.space.set_mesh(m)
    fs = {}
    for o in orientations:
        for k in range(dim + 1):
            sp = ph.space.new('Lambda', k, orientation=o)
            fs[f'{o}{k}'] = sp.make_form(r'f^{%d}_{%s}' % (k, o), f'f{k}{o}')
    ph.space.finite(N)
    msepy, obj = ph.fem.apply('msepy', dict(M=M, m=m, **fs))
    b = Built()
    b.M, b.mesh = obj['M'], obj['m']
    msepy.config(b.M)(desc['domain'], **desc['kw'])
    lay = desc['layout']
    msepy.config(b.mesh)(lay)
    b.forms = {k: obj[k] for k in fs}
    b.msepy, b.desc, b.N, b.dim = msepy, desc, N, dim
    return b
