"""Tidal ellipses (ellipse.py)"""
from pyvc.contract import contract, product


def inputs(w, kind):
    if kind == 'scalar':
        return w.real('ur', lo=-10, hi=10, special=(0.0, 1.0)) + 1j * w.real('ui', lo=-10, hi=10, special=(0.0, 1.0)), \
            w.real('vr', lo=-10, hi=10, special=(0.0, 1.0)) + 1j * w.real('vi', lo=-10, hi=10, special=(0.0, -1.0))
    n = w.dim('n')
    return w.array('u', (n,), 'C', lo=-10, hi=10, special=(0.0, 1.0, -1.0)), w.array('v', (n,), 'C', lo=-10, hi=10, special=(0.0, 1.0, -1.0))


@contract('P11', 'ellipse', functions=['ellipse.ellipse'], params=product(kind=['scalar', 'array']))
def ellipse(w, kind):
    """at every phase a of the tide the velocity is the point of the ellipse:
    Re(u e^ia) + i Re(v e^ia) = e^(i incl) (major cos(a-phase) + i minor sin(a-phase))"""
    np = w.np
    u, v = inputs(w, kind)
    a = w.real('a', lo=-7, hi=7)
    snap = w.snapshot(u, v) if kind == 'array' else []
    major, minor, incl, phase = w.get('pyTMD.ellipse.ellipse')(u, v)
    u, v = np.atleast_1d(u), np.atleast_1d(v)
    i, p = incl * np.pi / 180, phase * np.pi / 180
    X, Y = major * np.cos(a - p), minor * np.sin(a - p)
    w.eq('east', np.cos(i) * X - np.sin(i) * Y, u.real * np.cos(a) - u.imag * np.sin(a))
    w.eq('north', np.sin(i) * X + np.cos(i) * Y, v.real * np.cos(a) - v.imag * np.sin(a))
    w.true('inclination range', (incl >= 0) & (incl < 180))
    w.true('phase range', (phase >= 0) & (phase < 360))
    w.le('semi-minor below semi-major', minor, major)
    w.le('semi-minor above minus semi-major', -minor, major)
    w.unchanged('inputs', snap)


@contract('P11', 'inverse', functions=['ellipse.inverse'], params=product(kind=['scalar', 'array']))
def inverse(w, kind):
    """the complex amplitudes whose hodograph is the given ellipse, for any
    axes, inclination and phase"""
    np = w.np
    n = () if kind == 'scalar' else (w.dim('n'),)
    g = lambda nm, **k: w.real(nm, **k) if kind == 'scalar' else w.array(nm, n, **k)
    M, m = g('major', lo=0, hi=10), g('minor', lo=-10, hi=10, special=(0.0,))
    I, P = g('incl', lo=-360, hi=360, special=(0.0, 90.0)), g('phase', lo=-360, hi=720, special=(0.0, 90.0))
    a = w.real('a', lo=-7, hi=7)
    snap = w.snapshot(M, m, I, P) if kind == 'array' else []
    u, v = w.get('pyTMD.ellipse.inverse')(M, m, I, P)
    i, p = np.atleast_1d(I) * np.pi / 180, np.atleast_1d(P) * np.pi / 180
    X, Y = M * np.cos(a - p), m * np.sin(a - p)
    w.eq('east', u.real * np.cos(a) - u.imag * np.sin(a), np.cos(i) * X - np.sin(i) * Y)
    w.eq('north', v.real * np.cos(a) - v.imag * np.sin(a), np.sin(i) * X + np.cos(i) * Y)
    w.unchanged('inputs', snap)


@contract('P11', 'round_trip', functions=['ellipse.ellipse', 'ellipse.inverse'], params=product(kind=['scalar', 'array']))
def round_trip(w, kind):
    """inverse(ellipse(u, v)) = (u, v)"""
    np = w.np
    u, v = inputs(w, kind)
    r = w.get('pyTMD.ellipse.ellipse')(u, v)
    u2, v2 = w.get('pyTMD.ellipse.inverse')(*r)
    w.eq('u', u2, np.atleast_1d(u))
    w.eq('v', v2, np.atleast_1d(v))
