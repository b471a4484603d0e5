"""Independent reference-element toolbox: numerical Jacobians, Newton inverse of the mapping, tensor interpolation."""
import numpy as np
from numpy.polynomial.legendre import leggauss


def num_jac(mapping, pts, h=1e-5):
    """pts (n, m) -> J (n, n, m), J[i, j] = d x_i / d xi_j by 4th order central differences"""
    n = len(pts)
    cols = []
    for j in range(n):
        s = 0
        for w, k in ((1 / 12, -2), (-8 / 12, -1), (8 / 12, 1), (-1 / 12, 2)):
            q = [p.copy() for p in pts]
            q[j] = q[j] + k * h
            s = s + w * np.array(mapping(*q), dtype=float)
        cols.append(s / h)
    return np.stack(cols, axis=1)


def num_jac1(mapping, pts, h=1e-5):
    """same, but never leaves the reference element [-1, 1]^n (one-sided 4th order where needed)"""
    n = len(pts)
    cols = []
    for j in range(n):
        # shift the stencil centre so that all points are inside
        c = np.clip(pts[j], -1 + 2 * h, 1 - 2 * h)
        d = (pts[j] - c) / h
        s = 0
        for k in (-2, -1, 0, 1, 2):
            # derivative at offset d of the quartic interpolant through offsets -2..2
            others = [m for m in (-2, -1, 0, 1, 2) if m != k]
            den = np.prod([k - m for m in others])
            num = 0
            for drop in others:
                t = 1.0
                for m in others:
                    if m != drop:
                        t = t * (d - m)
                num = num + t
            q = [p.copy() for p in pts]
            q[j] = c + k * h
            s = s + (num / den) * np.array(mapping(*q), dtype=float)
        cols.append(s / h)
    return np.stack(cols, axis=1)


class Inverse:
    """inverse of the mapping of one cell: nearest point of a lattice, then clipped Newton; points that are not in the
    image of the reference element come back as nan"""

    def __init__(self, mapping, n):
        self.map, self.n = mapping, n
        m = 17 if n < 3 else 7
        g = [a.ravel() for a in np.meshgrid(*[np.linspace(-1, 1, m)] * n, indexing='ij')]
        self.lat = np.array(g)
        self.img = np.array(mapping(*g), dtype=float)
        # reach of one lattice cell
        self.reach = 0
        I = self.img.reshape((n,) + (m,) * n)
        for ax in range(n):
            d = np.linalg.norm(np.diff(I, axis=ax + 1), axis=0)
            self.reach += 1.3 * d.max()

    def __call__(self, X, it=25):
        n, m = X.shape
        best = np.full((n, m), np.nan)
        if m == 0:
            return best
        rest = np.arange(m)
        for q, st in enumerate((None, 0.0, 0.5, -0.5)):
            got = self.newton(X[:, rest], st, it)
            ok = np.isfinite(got).all(axis=0)
            best[:, rest[ok]] = got[:, ok]
            rest = rest[~ok]
            if q == 0 and rest.size:
                d2 = ((X[:, rest][:, :, None] - self.img[:, None, :]) ** 2).sum(axis=0).min(axis=1)
                rest = rest[d2 <= (self.reach / 2) ** 2]
            if rest.size == 0:
                break
        return best

    def newton(self, X, start, it):
        n, m = X.shape
        best = np.full((n, m), np.nan)
        d2 = ((X[:, :, None] - self.img[:, None, :]) ** 2).sum(axis=0)
        k = d2.argmin(axis=1)
        act = np.where(d2[np.arange(m), k] <= self.reach ** 2)[0]
        P = self.lat[:, k[act]].copy() if start is None else np.full((n, act.size), start)
        h = 1e-6
        for _ in range(it):
            if act.size == 0:
                break
            r = np.array(self.map(*P), dtype=float) - X[:, act]
            ok = np.abs(r).max(axis=0) < 1e-12
            if ok.any():
                best[:, act[ok]] = P[:, ok]
                act, P, r = act[~ok], P[:, ~ok], r[:, ~ok]
                if act.size == 0:
                    break
            cols = []
            for j in range(n):
                a, b = P.copy(), P.copy()
                a[j] = np.minimum(a[j] + h, 1)
                b[j] = np.maximum(b[j] - h, -1)
                cols.append((np.array(self.map(*a), dtype=float) - np.array(self.map(*b), dtype=float)) / (a[j] - b[j]))
            A = np.moveaxis(np.stack(cols, axis=1), 2, 0)
            det = np.linalg.det(A)
            A = np.where(np.abs(det)[:, None, None] < 1e-13, A + 1e-6 * np.eye(n), A)
            d = np.linalg.solve(A, r.T[:, :, None])[:, :, 0].T
            d = np.clip(d, -0.7, 0.7)
            P = np.clip(P - d, -1.0, 1.0)
        if act.size:
            r = np.abs(np.array(self.map(*P), dtype=float) - X[:, act]).max(axis=0)
            ok = r < 1e-9
            best[:, act[ok]] = P[:, ok]
        return best


class TensorInterp:
    """interpolation from the tensor Gauss grid (F order values) to arbitrary points"""

    def __init__(self, n, dim):
        self.x, self.w = leggauss(n)
        self.dim = dim
        b = np.ones(n)
        for i in range(n):
            for j in range(n):
                if i != j:
                    b[i] /= (self.x[i] - self.x[j])
        self.b = b

    def basis1(self, p):
        p = np.asarray(p, dtype=float)
        d = p[:, None] - self.x[None]
        hit = np.abs(d) < 1e-14
        d = np.where(hit, 1.0, d)
        t = self.b / d
        B = t / t.sum(axis=1)[:, None]
        rows = hit.any(axis=1)
        B[rows] = hit[rows].astype(float)
        return B

    def at(self, pts):
        """matrix (npoints, n^dim), F-order columns"""
        B = self.basis1(pts[0])
        for q in pts[1:]:
            C = self.basis1(q)
            B = (C[:, :, None] * B[:, None, :]).reshape(len(pts[0]), -1)
        return B


def kind(o, k, dim):
    """how the components transform: scalar, cov, con, density"""
    if k == 0:
        return 'scalar'
    if k == dim:
        return 'density'
    if dim == 2:
        return 'cov' if o == 'inner' else 'con'
    return 'cov' if k == 1 else 'con'


def pull(kd, J, V):
    """physical (c, m) -> reference components; J (n, n, m)"""
    if kd == 'scalar':
        return V
    det = np.linalg.det(np.moveaxis(J, 2, 0))
    if kd == 'density':
        return V * det
    if kd == 'cov':
        return np.einsum('ijm,im->jm', J, V)
    iJ = np.moveaxis(np.linalg.inv(np.moveaxis(J, 2, 0)), 0, 2)
    return det * np.einsum('ijm,jm->im', iJ, V)


def push(kd, J, R):
    if kd == 'scalar':
        return R
    A = np.moveaxis(J, 2, 0)
    det = np.linalg.det(A)
    bad = np.abs(det) < 1e-13
    if bad.any():
        A = np.where(bad[:, None, None], np.eye(A.shape[1]), A)
        det = np.where(bad, 1, det)
    if kd == 'density':
        return R / det
    if kd == 'cov':
        iJ = np.moveaxis(np.linalg.inv(A), 0, 2)
        return np.einsum('jim,jm->im', iJ, R)
    return np.einsum('ijm,jm->im', np.moveaxis(A, 0, 2), R) / det
