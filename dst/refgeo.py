"""Reference geometry, written from the OpenDRIVE definitions (not from the library's code)."""
import math

_GL_X = None


def _gl():
    global _GL_X
    if _GL_X is None:
        import numpy as np
        x, w = np.polynomial.legendre.leggauss(12)
        _GL_X = [(float(a), float(b)) for a, b in zip(x, w)]
    return _GL_X


def spiral_local(length, k0, k1):
    g = (k1 - k0) / length
    turn = max(abs(k0), abs(k1)) * abs(length)
    n = max(1, int(turn / 1.0) + 1)
    h = length / n
    X = Y = 0.0
    for i in range(n):
        a = i * h
        for t, wt in _gl():
            s = a + (t + 1) * h / 2
            th = k0 * s + g * s * s / 2
            X += math.cos(th) * wt * h / 2
            Y += math.sin(th) * wt * h / 2
    return X, Y, k0 * length + g * length * length / 2


def arc_local(length, k):
    th = length * k
    return math.sin(th) / k, (1 - math.cos(th)) / k, th


def poly_point(c, p):
    au, bu, cu, du, av, bv, cv, dv = c
    return (au + bu * p + cu * p * p + du * p ** 3, av + bv * p + cv * p * p + dv * p ** 3,
            math.atan2(bv + 2 * cv * p + 3 * dv * p * p, bu + 2 * cu * p + 3 * du * p * p))


def poly_length(c):
    au, bu, cu, du, av, bv, cv, dv = c
    tot = 0.0
    n = 16
    for i in range(n):
        a, b = i / n, (i + 1) / n
        for t, wt in _gl():
            p = a + (t + 1) * (b - a) / 2
            tot += math.hypot(bu + 2 * cu * p + 3 * du * p * p, bv + 2 * cv * p + 3 * dv * p * p) * wt * (b - a) / 2
    return tot


def local_end(piece, length):
    """end pose of a piece starting at the origin along +x; length: as emitted"""
    k = piece['k']
    if k == 'line':
        return length, 0.0, 0.0
    if k == 'arc':
        return arc_local(length, piece['c'])
    if k == 'spiral':
        return spiral_local(length, piece['c0'], piece['c1'])
    if k == 'poly':
        p = 1.0 if piece['prange'] == 'normalized' else length
        return poly_point(piece['coef'], p)
    raise ValueError(k)


def given_length(piece):
    """the length the user defined, or None when it is derived by a rule outside these checks"""
    k = piece['k']
    if k == 'line':
        return piece['l']
    if k == 'arc':
        if piece.get('length') is not None:
            return piece['length']
        return abs(piece['angle'] / piece['c'])
    if k == 'spiral':
        if piece.get('length') is not None:
            return piece['length']
        if piece.get('cdot'):
            return (piece['c1'] - piece['c0']) / piece['cdot']
        return None
    if k == 'poly':
        return piece.get('length') if piece['prange'] != 'normalized' else None
    return None


def move(pose, d):
    x, y, h = pose
    dx, dy, dh = d
    c, s = math.cos(h), math.sin(h)
    return x + c * dx - s * dy, y + s * dx + c * dy, h + dh


def unmove(end, d):
    """the start pose from which local displacement d leads to end"""
    x, y, h = end
    dx, dy, dh = d
    h0 = h - dh
    c, s = math.cos(h0), math.sin(h0)
    return x - (c * dx - s * dy), y - (s * dx + c * dy), h0


def angdiff(a, b):
    d = math.fmod(a - b, 2 * math.pi)
    if d > math.pi:
        d -= 2 * math.pi
    if d < -math.pi:
        d += 2 * math.pi
    return d
