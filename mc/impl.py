"""One face for the two implementations (msehtt, msepy), using only what a user program uses."""
import itertools
import numpy as np
import scipy.sparse as sp
import meshes
import mp


def dense(m):
    return m.toarray() if sp.issparse(m) else np.asarray(m)


class Htt:
    kind = 'msehtt'

    def __init__(self, desc, N):
        self.b = meshes.build(desc, N)
        self.dim = desc['dim']
        self.forms = self.b.forms
        self.elems = list(self.b.tgm.elements)
        self.tgm = self.b.tgm

    def gm(self, name):
        g = self.forms[name].cochain.gathering_matrix
        return {e: np.asarray(g[e]) for e in self.elems}

    def ndofs(self, name):
        return int(self.forms[name].cochain.gathering_matrix.num_global_dofs)

    def reduce(self, name, cf, t=0.5):
        F = self.forms[name]
        F[t].reduce(cf[t])
        c = F[t].cochain
        return {e: np.array(c[e], dtype=float) for e in self.elems}

    def put(self, name, dic, t=0.5):
        self.forms[name][t].cochain = {e: np.array(dic[e], dtype=float) for e in self.elems}

    def cob(self, name, t=0.5):
        c = self.forms[name][t].coboundary()
        return {e: np.asarray(c[e]) for e in self.elems}

    def E(self, name):
        m = self.forms[name].incidence_matrix
        return {e: dense(m[e]) for e in self.elems}

    def M(self, name):
        F = self.forms[name]
        m = F.space.mass_matrix(F.degree)[0]
        return {e: dense(m[e]) for e in self.elems}

    def rec(self, name, *grid, t=0.5):
        x, v = self.forms[name][t].reconstruct(*grid, ravel=True)
        return {e: (np.array([c[e] for c in x]), np.array([c[e] for c in v])) for e in self.elems}

    def RM(self, name, *grid):
        rm = self.forms[name].reconstruction_matrix(*grid)
        return {e: [dense(c[e]) for c in rm] for e in self.elems}

    def mapping(self, e, *p):
        return np.array(self.b.tgm.elements[e].ct.mapping(*p))

    def ct(self, e):
        return self.b.tgm.elements[e].ct

    def triangle(self, e):
        return self.b.tgm.elements[e].etype in (5, 'unique msepy curvilinear triangle', 'unique curvilinear triangle')

    def etype(self, e):
        return self.b.tgm.elements[e].etype


class Py:
    kind = 'msepy'

    def __init__(self, desc, N):
        self.b = mp.build(desc, N)
        self.dim = desc['dim']
        self.forms = self.b.forms
        self.elems = list(range(len(self.b.mesh.elements)))

    def gm(self, name):
        g = self.forms[name].cochain.gathering_matrix
        return {e: np.asarray(g[e]) for e in self.elems}

    def ndofs(self, name):
        return int(self.forms[name].cochain.gathering_matrix.num_dofs)

    def reduce(self, name, cf, t=0.5):
        F = self.forms[name]
        F.cf = cf
        F[t].reduce()
        return {e: np.array(F[t].cochain.local[e], dtype=float) for e in self.elems}

    def put(self, name, dic, t=0.5):
        self.forms[name][t].cochain = np.array([dic[e] for e in self.elems], dtype=float)

    def cob(self, name, t=0.5):
        c = self.forms[name].coboundary[t].cochain.local
        return {e: np.asarray(c[e]) for e in self.elems}

    def E(self, name):
        m = self.forms[name].coboundary.incidence_matrix
        return {e: dense(m[e]) for e in self.elems}

    def M(self, name):
        m = self.forms[name].matrix.mass
        return {e: dense(m[e]) for e in self.elems}

    def rec(self, name, *grid, t=0.5):
        kw = {} if self.dim == 1 else dict(ravel=True)
        x, v = self.forms[name][t].reconstruct(*grid, **kw)
        return {e: (np.array([c[e] for c in x]), np.array([c[e] for c in v])) for e in self.elems}

    def mapping(self, e, *p):
        return np.array(self.b.mesh.elements[e].ct.mapping(*p))

    def ct(self, e):
        return self.b.mesh.elements[e].ct

    def triangle(self, e):
        return False

    def etype(self, e):
        return 'msepy'


def make(desc, N):
    return Py(desc, N) if 'domain' in desc else Htt(desc, N)


def flat(*grid):
    """points of the tensor grid in F order"""
    g = np.meshgrid(*grid, indexing='ij')
    return [a.ravel('F') for a in g]
