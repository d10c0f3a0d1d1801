"""Special functions (math.py)"""
from fractions import Fraction as Fr
from math import factorial
from pyvc.contract import contract, product
from .coords import vec


def legendre_derivative(l, m):
    """coefficients (ascending) of d^m P_l / dx^m, from Rodrigues' formula"""
    c = [Fr(0)] * (2 * l + 1)          # (x^2-1)^l
    for k in range(l + 1):
        c[2 * k] = Fr(factorial(l), factorial(k) * factorial(l - k)) * (-1) ** (l - k)
    for _ in range(l + m):
        c = [i * c[i] for i in range(1, len(c))] or [Fr(0)]
    return [x / (2 ** l * factorial(l)) for x in c]


def rat(w, q):
    return w.const(q.numerator) / w.const(q.denominator)


def plm(w, l, m, x, phase=True):
    np = w.np
    u = np.sqrt(1 - x ** 2)
    p = 0 * x
    for i, c in enumerate(legendre_derivative(l, m)):
        if c:
            p = p + rat(w, c) * x ** i
    return ((-1) ** m if phase else 1) * p * u ** m


LM3 = [dict(l=l, m=m, kind=k) for l in range(4) for m in range(l + 1) for k in ('scalar', 'array')]
X = dict(lo=-1, hi=1, special=(-1.0, 0.0, 1.0, 0.5))


@contract('P12', 'legendre', functions=['math.legendre'], params=LM3)
def legendre(w, l, m, kind):
    """(-1)^m (1-x^2)^(m/2) d^m P_l/dx^m"""
    x = vec(w, kind, 'x', **X)
    snap = w.snapshot(x) if kind == 'array' else []
    P = w.get('pyTMD.math.legendre')(l, x, m=m)
    w.eq('P_lm', P, plm(w, l, m, x))
    w.unchanged('inputs', snap)


@contract('P12', 'legendre_invalid', functions=['math.legendre'], params=[dict(l=4, m=0), dict(l=-1, m=0), dict(l=2, m=3), dict(l=2, m=-1)])
def legendre_invalid(w, l, m):
    """degrees and orders outside the table are rejected"""
    x = vec(w, 'array', 'x', **X)
    w.raises('rejected', AssertionError, lambda: w.get('pyTMD.math.legendre')(l, x, m=m))


@contract('P12', 'assoc_legendre', functions=['math.assoc_legendre'],
          params=[dict(lmax=n, kind=k) for n in (0, 1, 2, 3, 4, 5, 6, 8) for k in ('scalar', 'array')], trials=2)
def assoc_legendre(w, lmax, kind):
    """fully normalised functions of every degree and order up to lmax; zero
    above the diagonal"""
    np = w.np
    x = vec(w, kind, 'x', **X)
    P = w.get('pyTMD.math.assoc_legendre')(lmax, x)
    for l in range(lmax + 1):
        for m in range(lmax + 1):
            if m > l:
                w.eq('P_%d,%d' % (l, m), P[l, m], 0 * x)
                continue
            n2 = Fr((2 - (m == 0)) * (2 * l + 1) * factorial(l - m), factorial(l + m))
            w.eq('P_%d,%d' % (l, m), P[l, m], np.sqrt(rat(w, n2)) * plm(w, l, m, x, False))


@contract('P12', 'assoc_legendre_high', functions=['math.assoc_legendre'], params=[dict(lmax=n) for n in (12, 30, 60)], bounded=True, trials=3)
def assoc_legendre_high(w, lmax):
    """degrees up to 60 against scipy's associated Legendre functions"""
    import numpy as np
    from scipy.special import lpmv
    x = vec(w, 'array', 'x', lo=-0.999, hi=0.999)
    P = w.get('pyTMD.math.assoc_legendre')(lmax, x)
    w.shape_eq('shape', P, (lmax + 1, lmax + 1, len(x)))
    for l in range(lmax + 1):
        for m in range(l + 1):
            n = np.sqrt((2 - (m == 0)) * (2 * l + 1) * float(Fr(factorial(l - m), factorial(l + m))))
            w.eq('P_%d,%d' % (l, m), P[l, m], n * (-1.0) ** m * lpmv(m, l, x), tol=1e-6)


@contract('P12', 'sph_harm', functions=['math.sph_harm', 'math.legendre'], params=LM3)
def sph_harm(w, l, m, kind):
    """orthonormal complex spherical harmonics (Condon-Shortley phase)"""
    np = w.np
    th, ph = vec(w, kind, 'theta', lo=0, hi=3.14159, special=(0.0, 1.5707963267948966)), vec(w, kind, 'phi', lo=-7, hi=7)
    Y = w.get('pyTMD.math.sph_harm')(l, th, ph, m=m)
    n = np.sqrt(rat(w, Fr((2 * l + 1) * factorial(l - m), 4 * factorial(l + m))) / np.pi)
    x, u = np.cos(th), abs(np.sin(th))
    p = 0 * x
    for i, c in enumerate(legendre_derivative(l, m)):
        if c:
            p = p + rat(w, c) * x ** i
    p = (-1) ** m * n * p * u ** m
    w.eq('real', Y.real, p * np.cos(m * ph))
    w.eq('imag', Y.imag, p * np.sin(m * ph))


@contract('P12', 'polynomial_sum', functions=['math.polynomial_sum'], params=product(n=[1, 2, 3, 4, 5, 6], kind=['scalar', 'array']))
def polynomial_sum(w, n, kind):
    """sum of c_i t^i, for any coefficients"""
    c = [w.real('c%d' % i, lo=-100, hi=100) for i in range(n)]
    t = vec(w, kind, 't', lo=-10, hi=10)
    r = w.get('pyTMD.math.polynomial_sum')(c, t)
    s = 0 * w.np.atleast_1d(t)
    for i in range(n):
        s = s + c[i] * w.np.atleast_1d(t) ** i
    w.eq('polynomial', r, s)


@contract('P12', 'normalize_angle', functions=['math.normalize_angle'], params=product(kind=['scalar', 'array'], circle=['default', 'any']))
def normalize_angle(w, kind, circle):
    """the equivalent angle in [0, circle)"""
    a = vec(w, kind, 'a', lo=-5000, hi=5000, special=(0.0, 360.0, -360.0, 720.0))
    if circle == 'default':
        c, r = w.const(360), w.get('pyTMD.math.normalize_angle')(a)
    else:
        c = w.real('circle', lo=0.5, hi=5000)
        r = w.get('pyTMD.math.normalize_angle')(a, circle=c)
    w.true('range', (r >= 0) & (r < c))
    k = (a - r) / c
    w.eq('whole turns', w.floor(k + 0.5), k, tol=1e-6)


@contract('P12', 'aliasing', functions=['math.aliasing'], params=product(kind=['scalar', 'array']))
def aliasing(w, kind):
    """alias frequency: within [0, fs/2] and congruent to +-f modulo fs"""
    g, fs = vec(w, kind, 'g', lo=-100, hi=100, special=(0.5, -0.5, 1.0, 0.0, 1.5)), w.real('fs', lo=0.01, hi=50)
    f = g * fs
    r = w.get('pyTMD.math.aliasing')(f, fs)
    w.le('not negative', 0 * r, r)
    w.le('at most Nyquist', r, 0 * r + fs / 2)
    k = w.floor(g)
    w.eq('congruent', r / fs, w.ite(g - k <= k + 1 - g, g - k, k + 1 - g))


@contract('P12', 'rotate', functions=['math.rotate'], params=product(axis=['x', 'y', 'z', 'X', 'Y', 'Z'], kind=['scalar', 'array']))
def rotate(w, axis, kind):
    """proper rotation about one axis by theta (coordinate rotation)"""
    np = w.np
    th = vec(w, kind, 'theta', lo=-7, hi=7, special=(0.0,))
    R = w.get('pyTMD.math.rotate')(th, axis)
    t = np.atleast_1d(th)
    c, s, o, z = np.cos(t), np.sin(t), 0 * t + 1, 0 * t
    M = {'x': [[o, z, z], [z, c, s], [z, -s, c]], 'y': [[c, z, -s], [z, o, z], [s, z, c]], 'z': [[c, s, z], [-s, c, z], [z, z, o]]}[axis.lower()]
    for i in range(3):
        for j in range(3):
            w.eq('R[%d,%d]' % (i, j), R[i, j, :], M[i][j])
            w.eq('orthogonal[%d,%d]' % (i, j), sum(R[i, k, :] * R[j, k, :] for k in range(3)), o if i == j else z)


@contract('P12', 'rotate_invalid', functions=['math.rotate'])
def rotate_invalid(w):
    """other axes are rejected"""
    th = vec(w, 'array', 'theta', lo=-7, hi=7)
    w.raises('rejected', ValueError, lambda: w.get('pyTMD.math.rotate')(th, 'w'))
