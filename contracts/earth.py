"""Solid earth tides and pole tides (IERS Conventions 2010, chapter 7)"""
from pyvc.contract import contract, product
from .astro import ASSUME_TS
from .inference import P

FORMS = [dict(form='drift'), dict(form='series')]
L1 = [(-3, 0, 2, 0, 0, '-0.01', '0', '0', '0'), (-3, 2, 0, 0, 0, '-0.01', '0', '0', '0'), (-2, 0, 1, -1, 0, '-0.02', '0', '0', '0'),
      (-2, 0, 1, 0, 0, '-0.08', '0', '-0.01', '0.01'), (-2, 2, -1, 0, 0, '-0.02', '0', '0', '0'), (-1, 0, 0, -1, 0, '-0.10', '0', '0', '0'),
      (-1, 0, 0, 0, 0, '-0.51', '0', '-0.02', '0.03'), (-1, 2, 0, 0, 0, '0.01', '0', '0', '0'), (0, -2, 1, 0, 0, '0.01', '0', '0', '0'),
      (0, 0, -1, 0, 0, '0.02', '0', '0', '0'), (0, 0, 1, 0, 0, '0.06', '0', '0', '0'), (0, 0, 1, 1, 0, '0.01', '0', '0', '0'),
      (0, 2, -1, 0, 0, '0.01', '0', '0', '0'), (1, -3, 0, 0, 1, '-0.06', '0', '0', '0'), (1, -2, 0, -1, 0, '0.01', '0', '0', '0'),
      (1, -2, 0, 0, 0, '-1.23', '-0.07', '0.06', '0.01'), (1, -1, 0, 0, -1, '0.02', '0', '0', '0'), (1, -1, 0, 0, 1, '0.04', '0', '0', '0'),
      (1, 0, 0, -1, 0, '-0.22', '0.01', '0.01', '0'), (1, 0, 0, 0, 0, '12.00', '-0.80', '-0.67', '-0.03'), (1, 0, 0, 1, 0, '1.73', '-0.12', '-0.10', '0'),
      (1, 0, 0, 2, 0, '-0.04', '0', '0', '0'), (1, 1, 0, 0, -1, '-0.50', '-0.01', '0.03', '0'), (1, 1, 0, 0, 1, '0.01', '0', '0', '0'),
      (0, 1, 0, 1, -1, '-0.01', '0', '0', '0'), (1, 2, -2, 0, 0, '-0.01', '0', '0', '0'), (1, 2, 0, 0, 0, '-0.11', '0.01', '0.01', '0'),
      (2, -2, 1, 0, 0, '-0.01', '0', '0', '0'), (2, 0, -1, 0, 0, '-0.02', '0', '0', '0')]
L0 = [(0, 0, 0, 1, 0, '0.47', '0.23', '0.16', '0.07'), (0, 2, 0, 0, 0, '-0.20', '-0.12', '-0.11', '-0.05'), (1, 0, -1, 0, 0, '-0.11', '-0.08', '-0.09', '-0.04'),
      (2, 0, 0, 0, 0, '-0.13', '-0.11', '-0.15', '-0.07'), (2, 0, 0, 1, 0, '-0.05', '-0.05', '-0.06', '-0.03')]


class Frame:
    """local unit vectors and angles of the stations"""

    def __init__(self, w, X):
        np = w.np
        x, y, z = (X[:, i] for i in range(3))
        self.r = np.sqrt(x ** 2 + y ** 2 + z ** 2)
        p = np.sqrt(x ** 2 + y ** 2)
        self.s, self.c = z / self.r, p / self.r
        self.sl, self.cl = y / p, x / p
        self.up = [x / self.r, y / self.r, z / self.r]
        self.east = [-self.sl, self.cl, 0 * z]
        self.north = [-self.s * self.cl, -self.s * self.sl, self.c]

    def vec(self, up, east, north):
        return [up * a + east * b + north * c for a, b, c in zip(self.up, self.east, self.north)]


def stations(w, form):
    """positions off the rotation axis; one station per date or a single one"""
    n = w.dim('n')
    X = w.array('XYZ', (n if form == 'drift' else 1, 3), lo=-6.4e6, hi=6.4e6, special=(0.0,))
    w.assume(X[:, 0] ** 2 + X[:, 1] ** 2 > 1)
    return n, X


def bodies(w, n):
    S = w.array('SXYZ', (n, 3), lo=-1.5e11, hi=1.5e11)
    L = w.array('LXYZ', (n, 3), lo=-3.9e8, hi=3.9e8)
    w.assume(S[:, 0] ** 2 + S[:, 1] ** 2 + S[:, 2] ** 2 > 1e21)
    w.assume(L[:, 0] ** 2 + L[:, 1] ** 2 + L[:, 2] ** 2 > 1e16)
    return S, L


def factors(w, n):
    return w.array('F2_solar', (n,), lo=0.1, hi=0.3), w.array('F2_lunar', (n,), lo=0.2, hi=0.5)


def vec_eq(w, got, want, n):
    w.shape_eq('displacement', got, (n, 3))
    for i, a in enumerate('XYZ'):
        w.eq(a, got[:, i], want[i] + 0 * got[:, i], scale=1e-3)


def cs(B):
    """R^2 cos^2(latitude) (cos, sin)(2 lon), R^2 sin cos(latitude) (cos, sin)(lon)"""
    return B[:, 0] ** 2 - B[:, 1] ** 2, 2 * B[:, 0] * B[:, 1], B[:, 2] * B[:, 0], B[:, 2] * B[:, 1], B[:, 0] ** 2 + B[:, 1] ** 2 + B[:, 2] ** 2


def helper(name, formula):
    @contract('P09', name.strip('_'), functions=['predict.' + name], params=FORMS, trials=6, tol=1e-9)
    def f(w, form):
        n, X = stations(w, form)
        S, L = bodies(w, n)
        FS, FL = factors(w, n)
        snap = w.snapshot(X, S, L, FS, FL)
        got = w.get(P + name)(X, S, L, FS, FL)
        F = Frame(w, X)
        u = e = nn = 0
        for B, f2 in ((S, FS), (L, FL)):
            C2, S2, C1, S1, R2 = cs(B)
            # sin and cos of (station longitude - body longitude), and twice
            s1, c1 = F.sl * C1 - F.cl * S1, F.cl * C1 + F.sl * S1
            c2l, s2l = F.cl ** 2 - F.sl ** 2, 2 * F.sl * F.cl
            s2, c2 = s2l * C2 - c2l * S2, c2l * C2 + s2l * S2
            d = formula(w, F, s1 / R2, c1 / R2, s2 / R2, c2 / R2)
            u, e, nn = u + f2 * d[0], e + f2 * d[1], nn + f2 * d[2]
        vec_eq(w, got, F.vec(u, e, nn), n)
        w.unchanged('inputs', snap)
    f.__doc__ = formula.__doc__
    return f


def oop_diurnal(w, F, s1, c1, s2, c2):
    """imaginary part of the diurnal Love numbers (equations 7.10a and b)"""
    dh, dl = w.const('-0.0025'), w.const('-0.0007')
    return -3 * dh * F.s * F.c * s1, -3 * dl * F.s * c1, -3 * dl * (F.c ** 2 - F.s ** 2) * s1


def oop_semidiurnal(w, F, s1, c1, s2, c2):
    """imaginary part of the semidiurnal Love numbers (equations 7.11a and b)"""
    dh, dl = w.const('-0.0022'), w.const('-0.0007')
    return -3 * dh / 4 * F.c ** 2 * s2, -3 * dl / 2 * F.c * c2, 3 * dl / 2 * F.s * F.c * s2


def latitude(w, F, s1, c1, s2, c2):
    """latitude dependence l1 of the transverse Love number (equations 7.8, 7.9)"""
    d, s = w.const('0.0012'), w.const('0.0024')
    return 0, 3 * d * F.s * (F.c ** 2 - F.s ** 2) * s1 - 3 * s / 2 * F.s ** 2 * F.c * s2, \
        -3 * d * F.s ** 2 * c1 - 3 * s / 2 * F.s * F.c * c2


helper('_out_of_phase_diurnal', oop_diurnal)
helper('_out_of_phase_semidiurnal', oop_semidiurnal)
helper('_latitude_dependence', latitude)


def stub_doodson(w):
    def doodson_arguments(MJD, **kw):
        return tuple(w.uf('doodson/' + x, w.np.atleast_1d(MJD)) for x in ('tau', 's', 'h', 'p', 'zns', 'ps'))
    w.stub('pyTMD.astro.doodson_arguments', doodson_arguments)


def days(w, n):
    return w.array('MJD', (n,), lo=50000, hi=60000)


@contract('P09', 'frequency_dependence_diurnal', functions=['predict._frequency_dependence_diurnal'], params=FORMS, trials=6, tol=1e-9)
def diurnal(w, form):
    """table 7.3a, equations 7.12a and b"""
    stub_doodson(w)
    n, X = stations(w, form)
    t = days(w, n)
    got = w.get(P + '_frequency_dependence_diurnal')(X, t)
    A = w.get('pyTMD.astro.doodson_arguments')(t)
    F = Frame(w, X)
    u = e = nn = 0
    for i, j, k, l, m, rip, rop, tip, top in L1:
        th = A[0] + i * A[1] + j * A[2] + k * A[3] + l * A[4] + m * A[5]
        # argument plus longitude of the station
        s, c = w.np.sin(th) * F.cl + w.np.cos(th) * F.sl, w.np.cos(th) * F.cl - w.np.sin(th) * F.sl
        rip, rop, tip, top = (w.const(x) / 1000 for x in (rip, rop, tip, top))
        u = u + (rip * s + rop * c) * 2 * F.s * F.c
        e = e + (tip * c - top * s) * F.s
        nn = nn + (tip * s + top * c) * (F.c ** 2 - F.s ** 2)
    vec_eq(w, got, F.vec(u, e, nn), n)


@contract('P09', 'frequency_dependence_long_period', functions=['predict._frequency_dependence_long_period'], params=FORMS, trials=6, tol=1e-9)
def long_period(w, form):
    """table 7.3b, equations 7.13a and b"""
    stub_doodson(w)
    n, X = stations(w, form)
    t = days(w, n)
    got = w.get(P + '_frequency_dependence_long_period')(X, t)
    A = w.get('pyTMD.astro.doodson_arguments')(t)
    F = Frame(w, X)
    u = nn = 0
    for i, j, k, l, m, rip, tip, rop, top in L0:
        th = i * A[1] + j * A[2] + k * A[3] + l * A[4] + m * A[5]
        s, c = w.np.sin(th), w.np.cos(th)
        rip, rop, tip, top = (w.const(x) / 1000 for x in (rip, rop, tip, top))
        u = u + (3 * F.s ** 2 - 1) / 2 * (rip * c + rop * s)
        nn = nn + 2 * F.s * F.c * (tip * c + top * s)
    vec_eq(w, got, F.vec(u, 0, nn), n)


@contract('P09', 'free_to_mean', functions=['predict._free_to_mean'], params=FORMS, trials=6, tol=1e-9)
def free_to_mean(w, form):
    """permanent tide (equations 7.14a and b)"""
    n, X = stations(w, form)
    m = n if form == 'drift' else 1
    h2, l2 = w.array('h2', (m,), lo=0.5, hi=0.7), w.array('l2', (m,), lo=0.05, hi=0.1)
    got = w.get(P + '_free_to_mean')(X, h2, l2)
    vec_eq(w, got, permanent(w, X, h2, l2), m)


def permanent(w, X, h2, l2):
    F = Frame(w, X)
    H0 = w.const('-0.31460')
    u = w.np.sqrt(5 / (4 * w.np.pi)) * H0 * h2 * (3 * F.s ** 2 - 1) / 2
    nn = 3 * w.np.sqrt(5 / (4 * w.np.pi)) * H0 * l2 * F.s * F.c
    return F.vec(u, 0, nn)


HELPERS = ['_out_of_phase_diurnal', '_out_of_phase_semidiurnal', '_latitude_dependence', '_frequency_dependence_diurnal', '_frequency_dependence_long_period', '_free_to_mean']


def stub_helpers(w, n):
    """helpers return arbitrary displacements; the arguments they are called
    with are recorded"""
    calls = []

    def mk(name):
        def f(*args):
            calls.append((name, args))
            return w.array(name, (n, 3))
        return f
    for h in HELPERS:
        w.stub(P + h, mk(h))
    return calls


LOVE = dict(h2='0.6078', l2='0.0847', h3='0.292', l3='0.015', mass_ratio_solar='332946.0482', mass_ratio_lunar='0.0123000371', a_axis='6378136.6')


@contract('P09', 'solid_earth_tide', functions=['predict.solid_earth_tide'], params=product(form=['drift', 'series'], system=['default', 'tide_free', 'mean_tide', 'Mean_Tide'], love=['default', 'given']),
          trials=6, tol=1e-9)
def solid_earth_tide(w, form, system, love):
    """in-phase displacement of degrees two and three (equations 7.5 and 7.6)
    plus the corrections of the helper functions"""
    n, X = stations(w, form)
    calls = stub_helpers(w, n)
    S, L = bodies(w, n)
    t = w.array('t', (n,), lo=0, hi=11000)
    kw = {k: w.const(v) for k, v in LOVE.items()}
    if love == 'given':
        for k, v in LOVE.items():
            kw[k] = w.real(k, lo=float(v) * 0.9, hi=float(v) * 1.1)
    given = dict(kw) if love == 'given' else {}
    if system != 'default':
        given['tide_system'] = system
    snap = w.snapshot(X, S, L, t)
    got = w.get(P + 'solid_earth_tide')(t, X, S, L, **given)
    F = Frame(w, X)
    P2 = 1 - 3 * F.c ** 2 / 2     # Legendre polynomial of sin(latitude)
    h2, l2 = kw['h2'] - w.const('0.0006') * P2, kw['l2'] + w.const('0.0002') * P2
    h3, l3, a = kw['h3'], kw['l3'], kw['a_axis']
    want = [0, 0, 0]
    f2 = []
    for B, m in ((S, kw['mass_ratio_solar']), (L, kw['mass_ratio_lunar'])):
        R = w.np.sqrt(B[:, 0] ** 2 + B[:, 1] ** 2 + B[:, 2] ** 2)
        b = [B[:, i] / R for i in range(3)]
        mu = sum(p * q for p, q in zip(b, F.up))
        F2, F3 = m * a ** 4 / R ** 3, m * a ** 5 / R ** 4
        f2.append(F2)
        for i in range(3):
            tr = b[i] - mu * F.up[i]
            want[i] = want[i] + F2 * (h2 * F.up[i] * (3 * mu ** 2 - 1) / 2 + 3 * l2 * mu * tr)
            want[i] = want[i] + F3 * (h3 * F.up[i] * (5 * mu ** 3 - 3 * mu) / 2 + l3 * (15 * mu ** 2 - 3) / 2 * tr)
    args = [(X, S, L) + tuple(f2)] * 3 + [(X, t + w.const('48622'))] * 2 + ([(X, h2, l2)] if system.lower() == 'mean_tide' else [])
    for name, ar in calls:
        expected = dict(zip(HELPERS, args))[name]
        w.true('arguments of %s' % name, len(ar) == len(expected))
        for i, (p, q) in enumerate(zip(ar, expected)):
            w.eq('argument %d of %s' % (i, name), p, q)
    for h, ar in zip(HELPERS, args):
        c = w.get(P + h)(*ar)
        want = [want[i] + c[:, i] for i in range(3)]
    vec_eq(w, got, want, n)
    w.unchanged('inputs', snap)


@contract('P09', 'tide_system', functions=['predict.solid_earth_tide'])
def tide_system(w):
    """unknown permanent tide systems are errors"""
    n, X = stations(w, 'drift')
    stub_helpers(w, n)
    S, L = bodies(w, n)
    t = w.array('t', (n,), lo=0, hi=11000)
    w.raises('system', AssertionError, lambda: w.get(P + 'solid_earth_tide')(t, X, S, L, tide_system='zero_tide'))


# ------------------------------------------------------------------ pole tides
def stub_pole(w):
    T = 'timescale.time.'

    def convert_julian(JD, **kw):
        return tuple(w.uf('cal/' + x, JD) for x in 'YMDhms')

    def decimal(Y, M, day=None, hour=None, minute=None, second=None):
        return w.np.atleast_1d(w.uf('decimal', Y, M, day, hour, minute, second))

    def mean_pole(y, convention='2018', **kw):
        return tuple(w.uf('pole/%s/%s' % (x, convention), y) for x in ('x', 'y', 'flag'))

    def polar_motion(MJD, k=3, s=0, **kw):
        return tuple(w.uf('motion/' + x, MJD) for x in 'xy')
    w.stub(T + 'convert_julian', convert_julian)
    w.stub(T + 'convert_calendar_decimal', decimal)
    w.stub('timescale.eop.iers_mean_pole', mean_pole)
    w.stub('timescale.eop.iers_polar_motion', polar_motion)


def wobble(w, t, dt, convention):
    """m1, m2: pole coordinates less the mean pole of the date (arcseconds)"""
    tt = t + w.const('2448622.5') + dt
    Y, M, D, h, m, s = w.get('timescale.time.convert_julian')(tt, format='tuple')
    y = w.get('timescale.time.convert_calendar_decimal')(Y, M, day=D, hour=h, minute=m, second=s)
    mx, my, _ = w.get('timescale.eop.iers_mean_pole')(y, convention=convention)
    px, py = w.get('timescale.eop.iers_polar_motion')(tt - w.const('2400000.5'), k=3, s=0)
    return px - mx, -(py - my)


PFORMS = ['drift', 'series', 'map', 'value']


def pole_setting(w, form):
    n = w.dim('n')
    t = w.array('t', (n,), lo=0, hi=9000) if form in ('drift', 'series') else w.real('t', lo=0, hi=9000)
    m = n if form in ('drift', 'map') else 1
    X = w.array('XYZ', (m, 3), lo=-6.4e6, hi=6.4e6, special=(0.0,))
    w.assume(X[:, 0] ** 2 + X[:, 1] ** 2 > 1)
    return (1 if form == 'value' else n), m, t, X


@contract('P10', 'load_pole_tide', functions=['predict.load_pole_tide'], params=[dict(form=f, conv=c) for f in PFORMS for c in ('default', '2015' if f == 'drift' else '2010', 'given')], trials=4, tol=1e-8,
          assumes=ASSUME_TS)
def load_pole_tide(w, form, conv):
    """equations 7.26: displacement by the centrifugal effect of polar motion"""
    stub_pole(w)
    n, m, t, X = pole_setting(w, form)
    dt = w.real('deltat', lo=-0.001, hi=0.001)
    g, om, h2, l2 = (w.const(x) for x in ('9.80665', '7.2921151467e-5', '0.6207', '0.0836'))
    kw = {}
    c = '2018'
    if conv == 'given':
        g, om, h2, l2 = w.real('g', lo=9.7, hi=9.9), w.real('om', lo=7e-5, hi=7.5e-5), w.real('h2', lo=0.5, hi=0.7), w.real('l2', lo=0.05, hi=0.1)
        kw = dict(gamma_0=g, omega=om, h2=h2, l2=l2, convention='2003')
        c = '2003'
    elif conv != 'default':
        c = kw['convention'] = conv
    snap = w.snapshot(X)
    got = w.get(P + 'load_pole_tide')(t, X, deltat=dt, **kw)
    m1, m2 = wobble(w, t, dt, c)
    F = Frame(w, X)
    # potential -om^2 r^2 / 2 sin(2 theta) (m1 cos(lon) + m2 sin(lon)), m in radians
    k = om ** 2 * F.r ** 2 / g * w.np.pi / 648000
    a, b = m1 * F.cl + m2 * F.sl, m1 * F.sl - m2 * F.cl
    up = -h2 * k * F.s * F.c * a
    north = l2 * k * (F.s ** 2 - F.c ** 2) * a     # towards smaller colatitude
    east = l2 * k * F.s * b
    vec_eq(w, got, F.vec(up, east, north), n)
    w.unchanged('inputs', snap)


@contract('P10', 'ocean_pole_tide', functions=['predict.ocean_pole_tide'], params=[dict(form=f, conv=c) for f in PFORMS for c in ('default', '2010', 'given')], trials=4, tol=1e-8,
          assumes=ASSUME_TS)
def ocean_pole_tide(w, form, conv):
    """equations 7.29 and 7.30: displacement by the ocean's response"""
    stub_pole(w)
    n, m, t, X = pole_setting(w, form)
    U = w.array('UXYZ', (m, 3), kind='C')
    dt = w.real('deltat', lo=-0.001, hi=0.001)
    V = dict(gamma_0='9.780325', a_axis='6378136.3', GM='3.986004418e14', omega='7.2921151467e-5', rho_w='1025')
    v = {k: w.const(x) for k, x in V.items()}
    gr, gi = w.const('0.6870'), w.const('0.0036')
    kw, c = {}, '2018'
    if conv == 'given':
        v = {k: w.real(k, lo=float(x) * 0.9, hi=float(x) * 1.1) for k, x in V.items()}
        kw, c = dict(v, convention='2003', g2=0.5 + 0.25j), '2003'
        gr, gi = w.const('0.5'), w.const('0.25')
    elif conv != 'default':
        c = kw['convention'] = conv
    snap = w.snapshot(X, U)
    got = w.get(P + 'ocean_pole_tide')(t, X, U, deltat=dt, **kw)
    m1, m2 = wobble(w, t, dt, c)
    Hp = w.np.sqrt(8 * w.np.pi / 15) * v['omega'] ** 2 * v['a_axis'] ** 4 / v['GM']
    K = 4 * w.np.pi * w.const('6.67430e-11') * v['a_axis'] * v['rho_w'] * Hp / (3 * v['gamma_0'])
    k = K * w.np.pi / 648000
    want = [k * ((m1 * gr + m2 * gi) * U[:, i].real + (m2 * gr - m1 * gi) * U[:, i].imag) for i in range(3)]
    vec_eq(w, got, want, n)
    w.unchanged('inputs', snap)
