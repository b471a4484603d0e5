"""Helpers of the demonstrations: build a mesh and forms with plain phyem calls."""
import os, sys
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(k, '1')
os.environ.setdefault('OMPI_ALLOW_RUN_AS_ROOT', '1')
os.environ.setdefault('OMPI_ALLOW_RUN_AS_ROOT_CONFIRM', '1')
sys.dont_write_bytecode = True
import matplotlib
_use = matplotlib.use
matplotlib.use = lambda *a, **k: _use('Agg')
_use('Agg')
sys.path.insert(0, '/opt/phyem_root')
import numpy as np
import phyem as ph


def htt(cfg, dim, N, orientations=('inner', 'outer'), **kw):
    """msehtt: mesh from a configuration, one form per space: returns (tgm, {'inner0': form, ...})"""
    ph.config.set_embedding_space_dim(dim)
    M = ph.manifold(dim)
    m = ph.mesh(M)
    ph.space.set_mesh(m)
    fs = {}
    for o in orientations:
        for k in range(dim + 1):
            fs[f'{o}{k}'] = ph.space.new('Lambda', k, orientation=o).make_form(r'f^{%d}_{%s}' % (k, o), f'f{k}{o}')
    ph.space.finite(N)
    msehtt, obj = ph.fem.apply('msehtt', dict())
    msehtt.config('tgm')(cfg, **kw)
    tgm = msehtt.base['the_great_mesh']
    mesh = msehtt.base['meshes'][m._sym_repr]
    msehtt.config(mesh)(tgm, including='all')
    return tgm, {k: msehtt.base['forms'][f._pure_lin_repr] for k, f in fs.items()}


def py(domain, layout, dim, N, **kw):
    """msepy counterpart: returns (mesh, {'inner0': form, ...})"""
    ph.config.set_embedding_space_dim(dim)
    M = ph.manifold(dim, periodic=bool(kw.get('periodic', False)))
    m = ph.mesh(M)
    ph.space.set_mesh(m)
    fs = {}
    for o in ('inner', 'outer'):
        for k in range(dim + 1):
            fs[f'{o}{k}'] = ph.space.new('Lambda', k, orientation=o).make_form(r'f^{%d}_{%s}' % (k, o), f'f{k}{o}')
    ph.space.finite(N)
    msepy, obj = ph.fem.apply('msepy', dict(M=M, m=m, **fs))
    msepy.config(obj['M'])(domain, **kw)
    msepy.config(obj['m'])(layout)
    return obj['m'], {k: obj[k] for k in fs}


def fail(msg):
    print('DEMO: property broken:', msg)
    sys.stdout.flush()
    os._exit(1)


def done():
    print('DEMO: fine')
    sys.stdout.flush()
    os._exit(0)
