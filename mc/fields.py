"""Smooth test fields (with closed-form derivatives written by hand here, not by phyem)."""
import numpy as np
import phyem as ph

sin, cos, exp, pi = np.sin, np.cos, np.exp, np.pi


class S2:
    """scalar a*sin(b x + c)*cos(d y + e) + g x y + h x + i y, its partial derivatives"""

    def __init__(s, p):
        s.p = p

    def f(s, t, x, y):
        a, b, c, d, e, g, h_, i = s.p
        return (1 + t) * (a * sin(b * x + c) * cos(d * y + e) + g * x * y + h_ * x + i * y)

    def x(s, t, x, y):
        a, b, c, d, e, g, h_, i = s.p
        return (1 + t) * (a * b * cos(b * x + c) * cos(d * y + e) + g * y + h_ + 0 * x)

    def y(s, t, x, y):
        a, b, c, d, e, g, h_, i = s.p
        return (1 + t) * (-a * d * sin(b * x + c) * sin(d * y + e) + g * x + i + 0 * y)


def scalars2(period=None, n=5):
    """n generic scalar fields; periodic ones if period=(Lx, Ly)"""
    out = []
    if period is None:
        base = [(1.0, 1.3, 0.2, 0.7, 0.1, 0.5, 0.3, -0.2), (0.7, 0.9, 1.1, 1.7, 0.6, -0.3, 1.1, 0.4),
                (-0.6, 1.9, 0.5, 1.1, 0.9, 0.21, -0.7, 1.3), (0.9, 0.4, 0.3, 2.1, 0.2, 0.8, 0.17, 0.9),
                (0.3, 2.2, 1.4, 0.5, 1.2, -0.9, 0.6, -1.1), (1.1, 1.1, 0.7, 0.3, 1.9, 0.4, -1.3, 0.6)]
        for p in base[:n]:
            out.append(S2(p))
    else:
        Lx, Ly = period
        wx, wy = 2 * pi / Lx, 2 * pi / Ly
        base = [(1.0, wx, 0.2, wy, 0.1, 0, 0, 0), (0.7, wx, 1.1, wy, 0.6, 0, 0, 0), (-0.6, wx, 2.5, wy, 1.9, 0, 0, 0),
                (0.9, wx, 0.35, wy, 3.2, 0, 0, 0), (0.3, wx, 4.4, wy, 2.3, 0, 0, 0), (1.1, wx, 0.7, wy, 1.3, 0, 0, 0)]
        for p in base[:n]:
            out.append(S2(p))
    return out


def vc_s(s):
    return ph.vc.scalar(s.f)


def vc_v(s, r):
    return ph.vc.vector(s.f, r.f)


def vc_grad(s):
    return ph.vc.vector(s.x, s.y)


def vc_curl(s):
    """2d scalar -> vector: (ds/dy, -ds/dx)"""
    return ph.vc.vector(s.y, lambda t, x, y: -s.x(t, x, y))


def vc_rot(s, r):
    """2d vector (s, r) -> scalar: dr/dx - ds/dy"""
    return ph.vc.scalar(lambda t, x, y: r.x(t, x, y) - s.y(t, x, y))


def vc_div(s, r):
    return ph.vc.scalar(lambda t, x, y: s.x(t, x, y) + r.y(t, x, y))


class S1:
    def __init__(s, a, b, c, d):
        s.p = a, b, c, d

    def f(s, t, x):
        a, b, c, d = s.p
        return (1 + t) * (a * sin(b * x + c) + d * x)

    def x(s, t, x):
        a, b, c, d = s.p
        return (1 + t) * (a * b * cos(b * x + c) + d)


class S3:
    def __init__(s, p):
        s.p = p

    def f(s, t, x, y, z):
        a, b, c, d, e, g, h_ = s.p
        return (1 + t) * a * sin(b * x + c) * cos(d * y + e) * sin(g * z + h_)

    def x(s, t, x, y, z):
        a, b, c, d, e, g, h_ = s.p
        return (1 + t) * a * b * cos(b * x + c) * cos(d * y + e) * sin(g * z + h_)

    def y(s, t, x, y, z):
        a, b, c, d, e, g, h_ = s.p
        return -(1 + t) * a * d * sin(b * x + c) * sin(d * y + e) * sin(g * z + h_)

    def z(s, t, x, y, z):
        a, b, c, d, e, g, h_ = s.p
        return (1 + t) * a * g * sin(b * x + c) * cos(d * y + e) * cos(g * z + h_)


def scalars3(period=None, n=6):
    out = []
    if period is None:
        base = [(1.0, 1.3, 0.2, 0.7, 0.1, 1.1, 0.3), (0.7, 0.9, 1.1, 1.7, 0.6, 0.3, 1.1),
                (-0.6, 1.9, 0.5, 1.1, 0.9, 0.61, 0.7), (0.9, 0.4, 0.3, 2.1, 0.2, 0.8, 0.17),
                (0.3, 2.2, 1.4, 0.5, 1.2, 0.9, 0.6), (1.1, 1.1, 0.7, 0.3, 1.9, 0.4, 1.3)]
    else:
        Lx, Ly, Lz = period
        w = [2 * pi / Lx, 2 * pi / Ly, 2 * pi / Lz]
        ph_ = [(0.2, 0.1, 0.3), (1.1, 0.6, 1.9), (2.5, 1.9, 0.7), (0.35, 3.2, 2.2), (4.4, 2.3, 1.2), (0.7, 1.3, 3.1)]
        base = [(1.0 - 0.13 * i, w[0], a, w[1], b, w[2], c) for i, (a, b, c) in enumerate(ph_)]
    return [S3(p) for p in base[:n]]


def vc3_v(a, b, c):
    return ph.vc.vector(a.f, b.f, c.f)


def vc3_grad(s):
    return ph.vc.vector(s.x, s.y, s.z)


def vc3_curl(a, b, c):
    return ph.vc.vector(lambda t, x, y, z: c.y(t, x, y, z) - b.z(t, x, y, z),
                        lambda t, x, y, z: a.z(t, x, y, z) - c.x(t, x, y, z),
                        lambda t, x, y, z: b.x(t, x, y, z) - a.y(t, x, y, z))


def vc3_div(a, b, c):
    return ph.vc.scalar(lambda t, x, y, z: a.x(t, x, y, z) + b.y(t, x, y, z) + c.z(t, x, y, z))


def period_of(desc):
    """period lengths of a periodic mesh descriptor, else None"""
    kw = desc['kw']
    if desc.get('cfg') == 'periodic slice':
        (x0, x1), (y0, y1) = kw['bounds']
        return (x1 - x0, y1 - y0, kw['thickness'])
    if kw.get('periodic'):
        b = kw.get('bounds', [[0, 1]] * desc['dim'])
        return tuple(u - l for l, u in b)
    return None


def sequences(desc, n=4):
    """[(orientation, k, cf, d cf)] for every k and orientation, n generic fields each"""
    per = period_of(desc)
    out = []
    if desc['dim'] == 1:
        for i in range(n):
            s = S1(1.0 + i, 1.3 * i + 0.4, 0.3 * i, 0.7 - i)
            for o in ('inner', 'outer'):
                out += [(o, 0, ph.vc.scalar(s.f), ph.vc.scalar(s.x)), (o, 1, ph.vc.scalar(s.f), None)]
    elif desc['dim'] == 2:
        S = scalars2(per, n + 1)
        for i in range(n):
            s, r = S[i % len(S)], S[(i + 1) % len(S)]
            out += [('inner', 0, vc_s(s), vc_grad(s)), ('outer', 0, vc_s(s), vc_curl(s)),
                    ('inner', 1, vc_v(s, r), vc_rot(s, r)), ('outer', 1, vc_v(s, r), vc_div(s, r)),
                    ('inner', 2, vc_s(s), None), ('outer', 2, vc_s(s), None)]
    else:
        S = scalars3(per, n + 2)
        for i in range(n):
            a, b, c = S[i % len(S)], S[(i + 1) % len(S)], S[(i + 2 + i // 4) % len(S)]
            for o in ('inner', 'outer'):
                out += [(o, 0, vc_s3(a), vc3_grad(a)), (o, 1, vc3_v(a, b, c), vc3_curl(a, b, c)),
                        (o, 2, vc3_v(a, b, c), vc3_div(a, b, c)), (o, 3, vc_s3(a), None)]
    return out


def vc_s3(s):
    return ph.vc.scalar(s.f)
