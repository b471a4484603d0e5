"""Discrete problems made the way a user makes them (pde -> weak formulation -> matrix proxy -> system -> implementation), for
both implementations, on domains with straight boundaries.

sides are named 'x-', 'x+', 'y-', 'y+', 'z-', 'z+'."""
import random

import numpy as np
import phyem as ph

import meshes

NRM = {'x-': (-1, 0, 0), 'x+': (1, 0, 0), 'y-': (0, -1, 0), 'y+': (0, 1, 0), 'z-': (0, 0, -1), 'z+': (0, 0, 1)}
SIDES = {2: ['x-', 'x+', 'y-', 'y+'], 3: ['x-', 'x+', 'y-', 'y+', 'z-', 'z+']}


class Problem:
    pass


class Abstract:
    """manifold, mesh and spaces for the definition of a problem"""

    def __init__(self, dim, periodic=False):
        ph.config.set_embedding_space_dim(dim)
        self.dim = dim
        self.M = ph.manifold(dim, periodic=periodic)
        self.m = ph.mesh(self.M)
        ph.space.set_mesh(self.m)

    def space(self, k, orientation='outer'):
        return ph.space.new('Lambda', k, orientation=orientation)


def build(desc, N, define, sections=None, periodic=False):
    """desc: a mesh of meshes.py (msehtt) or mp.py (msepy); define(A) -> dict of the things to implement; among them the system
    'ls' or 'nls' (made after set-up of the finite spaces by `finite()`). sections: {name: [sides]}; one of them may be None (the
    rest of the boundary)"""
    htt = 'domain' not in desc
    dim = desc['dim']
    random.seed(desc.get('seed', 0))
    np.random.seed(desc.get('seed', 0))
    A = Abstract(dim, periodic)
    things = define(A, lambda: ph.space.finite(N))
    P = Problem()
    P.htt, P.dim, P.N, P.desc, P.things, P.A = htt, dim, N, desc, things, A
    P.sections = {}
    sections = sections or {}
    if htt:
        fem, obj = ph.fem.apply('msehtt', dict(things))
        ind, kw = meshes.indicator(desc)
        fem.config('tgm')(ind, **kw)
        tgm = fem.base['the_great_mesh']
        P.mesh = fem.base['meshes'][A.m._sym_repr]
        fem.config(P.mesh)(tgm, including='all')
        for name, sides in sections.items():
            bm = section_mesh(fem, name)
            other = [s for s in sections if s != name]
            if sides is not None:
                inc = {'type': 'boundary_section', 'partial elements': P.mesh, 'ounv': [list(NRM[s][:dim]) for s in sides]}
            else:
                taken = sum([sections[s] for s in other], [])
                inc = {'type': 'boundary_section', 'partial elements': P.mesh,
                       'except ounv': [list(NRM[s][:dim]) for s in taken]}
            fem.config(bm)(tgm, including=inc)
            P.sections[name] = bm
        P.tgm = tgm
    else:
        fem, obj = ph.fem.apply('msepy', dict(M=A.M, m=A.m, **things))
        fem.config(obj['M'])(desc['domain'], **desc['kw'])
        for name, sides in sections.items():
            man = fem.base['manifolds'][name]
            if sides is not None:
                fem.config(man)(obj['M'], {0: [1 if s in sides else 0 for s in SIDES[dim]]})
            P.sections[name] = man
        P.mesh = obj['m']
        fem.config(P.mesh)(desc['layout'])
    P.fem, P.obj = fem, obj
    P.form = {}
    for k, v in things.items():
        if v.__class__.__name__ == 'Form' and v.is_root():
            P.form[k] = fem.base['forms'][v._pure_lin_repr]
    return P


def section_mesh(fem, name):
    for m in fem.base['meshes'].values():
        if m.abstract.manifold._sym_repr == name:
            return m
    raise KeyError(name)
