"""Astronomical arguments, rotation matrices, sun and moon (astro.py)"""
import os
import re
from pyvc.contract import contract, product
from .arguments import angle_eq, CIRC

A = 'pyTMD.astro.'
CENT = 36525


def mjd(w, kind):
    if kind == 'scalar':
        return w.real('MJD', lo=30000, hi=80000, special=(51544.5, 48622.0))
    return w.array('MJD', (w.dim('t'),), lo=30000, hi=80000, special=(51544.5, 48622.0))


def horner(w, cs, T):
    r = 0 * T
    for c in reversed(cs.split(', ')):
        r = r * T + w.const(c)
    return r


class Timescale:
    """assumed contract of timescale.time.Timescale: attributes are functions
    of the date alone, one-dimensional"""
    century, day, turn, turndeg, deg2asec = 36525.0, 86400.0, 1.0, 360.0, 3600.0
    w = None

    def __init__(self, MJD=None, leaps=None):
        self.MJD = MJD

    def _at(self, n):
        return self.w.uf('timescale.' + n, self.w.np.atleast_1d(self.MJD))
    T = property(lambda self: (self.tt - self.w.const('2451545')) / 36525)
    tt = property(lambda self: self._at('tt'))
    st = property(lambda self: self._at('st'))
    gha = property(lambda self: self._at('gha'))
    ut1 = property(lambda self: self._at('ut1'))
    tau = property(lambda self: 2 * self.w.np.pi)
    deg2rad = property(lambda self: self.w.np.pi / 180)
    asec2rad = property(lambda self: self.w.np.pi / 648000)
    masec2rad = property(lambda self: self.w.np.pi / 648000000000)

    def symlen(self):
        return self.w.np.atleast_1d(self.MJD).shape[0]


def stub_time(w):
    w.stub('timescale.time.Timescale', type('Timescale', (Timescale,), {'w': w}))
    w.stub('timescale.eop.iers_polar_motion', lambda MJD, **kw: tuple(w.uf('eop.' + x, w.np.atleast_1d(MJD)) for x in ('px', 'py')))


def ts_of(w, MJD):
    return w.get('timescale.time.Timescale')(MJD=MJD)


ASSUME_TS = ['timescale.time.Timescale and timescale.eop (time scales, sidereal time, polar motion) are functions of the date']

LONGITUDES = {
    'meeus': (1, '51544.5', {
        's': '218.3164591, 13.17639647754579, -9.9454632e-13, 3.8086292e-20, -8.6184958e-27',
        'h': '280.46645, 0.985647360164271, 2.2727347e-13',
        'p': '83.3532430, 0.11140352391786447, -7.7385418e-12, -2.5636086e-19, 2.95738836e-26',
        'n': '125.0445550, -0.052953762762491446, 1.55628359e-12, 4.390675353e-20, -9.26940435e-27'}),
    'astro5': (CENT, '51544.5', {
        's': '218.3164477, 481267.88123421, -1.5786e-3, 1.855835e-6, -1.53388e-8',
        'h': '-79.5337444, 36000.7698308100, 3.033e-4, 2.3885e-8, -6.4943e-9',
        'p': '83.3532465, 4069.0137287, -1.032e-2, -1.249172e-5',
        'n': '125.04452, -1934.136261, 2.0708e-3, 2.22222e-6',
        'pp': '282.94, 1.7192'}),
    'otis': (1, '51544.4993', {
        's': '218.3164, 13.17639648', 'h': '280.4661, 0.98564736', 'p': '83.3535, 0.11140353', 'n': '125.0445, -0.05295377', 'pp': '282.8'})}


@contract('P06', 'mean_longitudes', functions=['astro.mean_longitudes'], params=product(method=['otis', 'astro5', 'meeus', 'both'], kind=['scalar', 'array']), tol=1e-8)
def mean_longitudes(w, method, kind):
    """longitudes of the moon, sun, lunar perigee and node, solar perigee by
    each of the three series; within [0, 360) but for the solar perigee"""
    t = mjd(w, kind)
    kw = dict(otis={}, astro5=dict(ASTRO5=True), meeus=dict(MEEUS=True), both=dict(MEEUS=True, ASTRO5=True))[method]
    snap = w.snapshot(t) if kind == 'array' else []
    got = w.get(A + 'mean_longitudes')(t, **kw)
    w.true('five', len(got) == 5)
    unit, epoch, series = LONGITUDES['meeus' if method == 'both' else method]
    T = (t - w.const(epoch)) / unit
    for n, x in zip(('s', 'h', 'p', 'n', 'pp'), got):
        x = w.np.atleast_1d(x)
        if n in series:
            want = horner(w, series[n], T)
        else:
            want = w.const('282.94') + w.const('1.7192') * T / CENT
        w.shape_eq(n, x, w.np.shape(w.np.atleast_1d(t)))
        angle_eq(w, n, x, w.np.atleast_1d(want))
        if n != 'pp':
            w.true('range ' + n, (x >= 0) & (x < 360))
    w.unchanged('input', snap)


DOODSON = {
    's': '218.3164477, 481267.88123421, -1.5786e-3, 1.855835e-6, -1.53388e-8',
    'lambda': '280.4606184, 36000.7700536, 3.8793e-4, -2.58e-8',
    'pr': '0, 1.396971278, 3.08889e-4, 2.1e-8, 7.0e-9',
    'h': '280.46645, 36000.7697489, 3.0322222e-4, 2.0e-8, -6.54e-9',
    'p': '83.3532465, 4069.0137287, -1.032172222e-2, -1.24991e-5, 5.263e-8',
    'np': '234.95544499, 1934.13626197, -2.07561111e-3, -2.13944e-6, 1.65e-8',
    'ps': '282.93734098, 1.71945766667, 4.5688889e-4, -1.778e-8, -3.34e-9'}


@contract('P06', 'doodson_arguments', functions=['astro.doodson_arguments'], params=product(equinox=[False, True], correction=[False, True], kind=['scalar', 'array']),
          tol=1e-8, assumes=ASSUME_TS)
def doodson_arguments(w, equinox, correction, kind):
    """the six arguments of Doodson in radians, within one turn"""
    stub_time(w)
    t = mjd(w, kind)
    got = w.get(A + 'doodson_arguments')(t, equinox=equinox, apply_correction=correction)
    t1 = w.np.atleast_1d(t)
    T = (t1 - w.const('51544.5')) / CENT
    s = horner(w, DOODSON['s'], T)
    if equinox:
        tau = 360 * ts_of(w, t).st + 180 - s
    else:
        tau = 360 * (t1 - w.floor(t1)) - s + horner(w, DOODSON['lambda'], T)
    if correction:
        s = s + horner(w, DOODSON['pr'], T)
    want = [tau, s] + [horner(w, DOODSON[n], T) for n in ('h', 'p', 'np', 'ps')]
    for n, x, y in zip(('tau', 's', 'h', 'p', 'np', 'ps'), got, want):
        w.shape_eq(n, x, w.np.shape(t1))
        w.eq('cos ' + n, w.np.cos(x), w.np.cos(y * w.np.pi / 180))
        w.eq('sin ' + n, w.np.sin(x), w.np.sin(y * w.np.pi / 180))
        w.true('range ' + n, (x >= 0) & (x < 2 * w.np.pi))


@contract('P06', 'phase_angles', functions=['astro.phase_angles'])
def phase_angles(w):
    """the arguments of Doodson in another order"""
    import warnings
    t = mjd(w, 'array')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = w.get(A + 'phase_angles')(t)
    d = w.get(A + 'doodson_arguments')(t)
    for n, x, y in zip(('s', 'h', 'p', 'tau', 'zns', 'ps'), got, (d[1], d[2], d[3], d[0], d[4], d[5])):
        w.eq(n, x, y)


DELAUNAY = {
    'l': '485868.249036, 1717915923.2178, 31.8792, 0.051635, -0.00024470',
    'lp': '1287104.79305, 129596581.0481, -0.5532, 0.000136, -0.00001149',
    'F': '335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417',
    'D': '1072260.70369, 1602961601.2090, -6.3706, 0.006593, -0.00003169',
    'N': '450160.398036, -6962890.5431, 7.4722, 0.007702, -0.00005939'}


@contract('P06', 'delaunay_arguments', functions=['astro.delaunay_arguments'], params=product(kind=['scalar', 'array']), tol=1e-7)
def delaunay_arguments(w, kind):
    """the five fundamental arguments of nutation (IERS 2010), within a turn"""
    t = mjd(w, kind)
    got = w.get(A + 'delaunay_arguments')(t)
    T = (w.np.atleast_1d(t) - w.const('51544.5')) / CENT
    w.true('five', len(got) == 5)
    for n, x in zip(DELAUNAY, got):
        w.shape_eq(n, x, w.np.shape(T))
        y = horner(w, DELAUNAY[n], T) * w.np.pi / 648000
        w.eq('cos ' + n, w.np.cos(x), w.np.cos(y))
        w.eq('sin ' + n, w.np.sin(x), w.np.sin(y))
        w.true('range ' + n, (x >= 0) & (x < 2 * w.np.pi))


@contract('P06', 'mean_obliquity', functions=['astro.mean_obliquity'], params=product(kind=['scalar', 'array']), tol=1e-13)
def mean_obliquity(w, kind):
    """mean obliquity of the ecliptic, IAU 2006"""
    t = mjd(w, kind)
    T = (w.np.atleast_1d(t) - w.const('51544.5')) / CENT
    w.eq('epsilon', w.get(A + 'mean_obliquity')(t), horner(w, '84381.406, -46.836769, -0.0001831, 0.00200340, -0.000000576, -0.0000000434', T) * w.np.pi / 648000)


# ------------------------------------------------------------ P07: rotations
def R1(w, x):
    c, s = w.np.cos(x), w.np.sin(x)
    return [[1, 0, 0], [0, c, s], [0, -s, c]]


def R2(w, x):
    c, s = w.np.cos(x), w.np.sin(x)
    return [[c, 0, -s], [0, 1, 0], [s, 0, c]]


def R3(w, x):
    c, s = w.np.cos(x), w.np.sin(x)
    return [[c, s, 0], [-s, c, 0], [0, 0, 1]]


def mm(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = [[sum(r[i][k] * m[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    return r


def rows(R):
    return [[R[i, j] for j in range(3)] for i in range(3)]


def mat_eq(w, label, R, want, ref, **kw):
    for i in range(3):
        for j in range(3):
            w.eq('%s[%d,%d]' % (label, i, j), R[i, j], want[i][j] + 0 * ref, **kw)


def centuries(w, kind):
    if kind == 'scalar':
        return w.real('T', lo=-0.5, hi=0.5, special=(0.0,))
    return w.array('T', (w.dim('t'),), lo=-0.5, hi=0.5, special=(0.0,))


KIND = product(kind=['scalar', 'array'])


@contract('P07', 'precession', functions=['astro._precession_matrix'], params=KIND, tol=1e-13)
def precession(w, kind):
    """IAU 2006 precession: R3(chi) R1(-omega) R3(-psi) R1(epsilon0)"""
    T = centuries(w, kind)
    P = w.get(A + '_precession_matrix')(T)
    T = w.np.atleast_1d(T)
    a = w.np.pi / 648000
    psi = a * horner(w, '0, 5038.481507, -1.0790069, -0.00114045, 0.000132851, -0.0000000951', T)
    om = a * horner(w, '84381.406, -0.025754, 0.0512623, -0.00772503, -0.000000467, 0.0000003337', T)
    chi = a * horner(w, '0, 10.556403, -2.3814292, -0.00121197, 0.000170663, -0.0000000560', T)
    w.shape_eq('P', P, (3, 3) + w.np.shape(T))
    mat_eq(w, 'P', P, mm(R3(w, chi), R1(w, -om), R3(w, -psi), R1(w, a * w.const('84381.406') + 0 * T)), T)


@contract('P07', 'nutation_matrix', functions=['astro._nutation_matrix'], params=KIND, tol=1e-12)
def nutation_matrix(w, kind):
    """nutation: R1(-true obliquity) R3(-psi) R1(mean obliquity)"""
    def arg(n, lo, hi):
        return w.real(n, lo=lo, hi=hi) if kind == 'scalar' else w.array(n, (w.dim('t'),), lo=lo, hi=hi)
    e0, e1, psi = arg('mean', 0, 1), arg('true', 0, 1), arg('psi', -3, 3)
    N = w.get(A + '_nutation_matrix')(e0, e1, psi)
    e0, e1, psi = [w.np.atleast_1d(x) for x in (e0, e1, psi)]
    w.shape_eq('N', N, (3, 3) + w.np.shape(psi))
    mat_eq(w, 'N', N, mm(R1(w, -e1), R3(w, -psi), R1(w, e0)), psi)


@contract('P07', 'frame_bias', functions=['astro._frame_bias_matrix'])
def frame_bias(w):
    """frame bias of the ICRS (second order)"""
    B = w.get(A + '_frame_bias_matrix')()
    as2 = 3.141592653589793 / 648000
    xi, eta, da = -0.0166170 * as2, -0.0068192 * as2, -0.01460 * as2
    want = [[1 - (da ** 2 + xi ** 2) / 2, da, -xi], [-da, 1 - (da ** 2 + eta ** 2) / 2, -eta], [xi, eta, 1 - (eta ** 2 + xi ** 2) / 2]]
    for i in range(3):
        for j in range(3):
            w.true('B[%d,%d]' % (i, j), abs(B[i, j] - want[i][j]) <= 1e-15)


@contract('P07', 'polar_motion', functions=['astro._polar_motion_matrix'], params=KIND, tol=1e-13, assumes=ASSUME_TS)
def polar_motion(w, kind):
    """terrestrial intermediate to terrestrial frame: R1(-yp) R2(-xp) R3(s')"""
    stub_time(w)
    T = centuries(w, kind)
    W = w.get(A + '_polar_motion_matrix')(T)
    px, py = w.get('timescale.eop.iers_polar_motion')(T * CENT + w.const('51544.5'))
    T = w.np.atleast_1d(T)
    a = w.np.pi / 648000
    w.shape_eq('W', W, (3, 3) + w.np.shape(T))
    mat_eq(w, 'W', W, mm(R1(w, -py * a), R2(w, -px * a), R3(w, -w.const('0.000047') * T * a)), T)


def table_values(name, start, n, ints):
    """independent reading of the IERS tables: rows of numbers from a section
    headed by its number of terms"""
    import pyTMD
    path = os.path.join(os.path.dirname(pyTMD.__file__), 'data', name)
    out = {}
    j = None
    with open(path) as fid:
        for line in fid:
            m = re.search(r'j\s*=\s*(\d)\s.*?(?:terms|Nb of).*?(\d+)\s*$', line)
            if m:
                j = int(m.group(1))
                out[j] = (int(m.group(2)), [])
                continue
            v = line.split()
            if j is not None and len(v) == 17 and re.fullmatch(r'\d+', v[0]):
                out[j][1].append([float(v[1]), float(v[2])] + [int(x) for x in v[3:]])
    return out


TABLES = {'tab5.2e.txt': ('_parse_table_5_2e', ('Cs', 'Cc')), 'tab5.3a.txt': ('_parse_table_5_3a', ('As', 'Ac')), 'tab5.3b.txt': ('_parse_table_5_3b', ('Bs', 'Bc'))}
ARGS = ('l', 'lp', 'F', 'D', 'Om', 'L_Me', 'L_Ve', 'L_E', 'L_Ma', 'L_J', 'L_Sa', 'L_U', 'L_Ne', 'p_A')


@contract('P07', 'tables', functions=['astro._parse_table_5_2e', 'astro._parse_table_5_3a', 'astro._parse_table_5_3b'], params=product(table=list(TABLES)), bounded=True, trials=1)
def iers_tables(w, table):
    """the parsed tables hold every term of the IERS tables (bounded: the
    installed files, compared with an independent reading)"""
    fn, names = TABLES[table]
    got = w.get(A + fn)()
    want = table_values(table, 0, 0, 0)
    w.true('two sections', len(got) == 2 and sorted(want) == [0, 1])
    for j in (0, 1):
        n, v = want[j]
        w.true('all terms', len(got[j]) == n == len(v))
        for i in range(n):
            for k, c in enumerate(names + ARGS):
                x, y = float(got[j][i][c]), v[i][k]
                w.true('%s[%d][%s]' % (table, i, c), abs(x - y) <= 1e-6 * abs(y))


def stub_iers(w):
    """callee contract of the table parsers: the rows of the IERS tables"""
    if not w.symbolic:
        return
    import numpy
    for t, (fn, names) in TABLES.items():
        v = table_values(t, 0, 0, 0)
        r = tuple({c: numpy.array([x[k] for x in v[j][1]]) for k, c in enumerate(names + ARGS)} for j in (0, 1))
        w.stub(A + fn, lambda r=r: r)


def series(w, t, args, T, nargs):
    """sum of sines and cosines of the first arguments, with the part
    proportional to T"""
    v = table_values(t, 0, 0, 0)
    out = 0 * T
    for j in (0, 1):
        for r in v[j][1]:
            ang = 0 * T
            for k in range(nargs):
                if r[2 + k]:
                    ang = ang + r[2 + k] * args[k]
            x = 0 * T
            if r[0]:
                x = x + w.const(repr(r[0])) * w.np.sin(ang)
            if r[1]:
                x = x + w.const(repr(r[1])) * w.np.cos(ang)
            out = out + (x * T if j else x)
    return out


@contract('P07', 'nutation_angles', functions=['astro._nutation_angles'], params=KIND, trials=2, timeout=200, assumes=ASSUME_TS)
def nutation_angles(w, kind):
    """IAU 2000A_R06 nutation in longitude and obliquity: lunisolar series of
    the IERS tables"""
    stub_time(w)
    stub_iers(w)
    w.stub(A + 'delaunay_arguments', lambda MJD: tuple(w.uf('delaunay.' + n, w.np.atleast_1d(MJD)) for n in ('l', 'lp', 'F', 'D', 'N')))
    T = centuries(w, kind)
    dpsi, deps = w.get(A + '_nutation_angles')(T)
    ts = ts_of(w, T * CENT + w.const('51544.5'))
    a = w.get(A + 'delaunay_arguments')(ts.tt - w.const('2400000.5'))
    u = w.np.pi / 648000 / 1000000
    w.eq('dpsi', dpsi, u * series(w, 'tab5.3a.txt', a, ts.T, 5), tol=1e-5, scale=1e-4)
    w.eq('deps', deps, u * series(w, 'tab5.3b.txt', a, ts.T, 5), tol=1e-5, scale=1e-4)


PLANETS = ['4.402608842, 2608.7903141574', '3.176146697, 1021.3285546211', '1.753470314, 628.3075849991', '6.203480913, 334.0612426700',
           '0.599546497, 52.9690962641', '0.874016757, 21.3299104960', '5.481293872, 7.4781598567', '5.311886287, 3.8133035638', '0, 0.02438175, 0.00000538691']


@contract('P07', 'eqeq_complement', functions=['astro._eqeq_complement'], params=KIND, trials=3, assumes=ASSUME_TS)
def eqeq_complement(w, kind):
    """complementary terms of the equation of the equinoxes (IERS table 5.2e)"""
    stub_time(w)
    stub_iers(w)
    T = centuries(w, kind)
    c = w.get(A + '_eqeq_complement')(T)
    ts = ts_of(w, T * CENT + w.const('51544.5'))
    u = w.np.pi / 648000
    tt = w.np.atleast_1d(ts.T)
    a = [horner(w, DELAUNAY[n], tt) * u for n in ('l', 'lp', 'F', 'D', 'N')] + [horner(w, p, tt) for p in PLANETS]
    w.eq('complement', c, u / 1000000 * series(w, 'tab5.2e.txt', a, tt, 14), tol=1e-5, scale=1e-8)


@contract('P07', 'gast', functions=['astro.gast'], params=KIND, assumes=ASSUME_TS)
def gast(w, kind):
    """Greenwich apparent sidereal time: mean sidereal time plus the equation
    of the equinoxes, within [0, 1) turns"""
    stub_time(w)
    stub_angles(w)
    T = centuries(w, kind)
    g = w.get(A + 'gast')(T)
    t = T * CENT + w.const('51544.5')
    ts = ts_of(w, t)
    dpsi, deps = w.get(A + '_nutation_angles')(T)
    eps = w.get(A + 'mean_obliquity')(ts.tt - w.const('2400000.5'))
    want = 2 * w.np.pi * ts.st + dpsi * w.np.cos(eps + deps) + w.get(A + '_eqeq_complement')(T)
    angle_eq(w, 'gast', g, want / (2 * w.np.pi), per=1, tol=1e-11)
    w.true('range', (g >= 0) & (g < 1))


def stub_angles(w):
    """callee contracts: nutation angles, complementary terms and obliquity are
    functions of the date"""
    f = lambda n: (lambda T: w.uf(n, w.np.atleast_1d(T)))
    w.stub(A + '_nutation_angles', lambda T: (f('dpsi')(T), f('deps')(T)))
    w.stub(A + '_eqeq_complement', f('eqeq'))
    w.stub(A + 'mean_obliquity', f('obliquity'))


@contract('P07', 'itrs', functions=['astro.itrs'], params=KIND, trials=3, assumes=ASSUME_TS)
def itrs(w, kind):
    """celestial to terrestrial: W R3(GAST) N P B"""
    stub_time(w)
    stub_angles(w)
    f = lambda n: (lambda T: w.uf(n, w.np.atleast_1d(T)))
    w.stub(A + 'gast', f('gast'))

    def matrix(n):
        def m(T, *a):
            T = w.np.atleast_1d(T)
            k, j = w.np.arange(3)[:, None, None], w.np.arange(3)[None, :, None]
            args = [x[None, None, :] for x in (T,) + a]
            return w.uf(n, k + 0 * j + 0 * args[0], j + 0 * k + 0 * args[0], *args)
        return m
    if w.symbolic:
        w.stub(A + '_precession_matrix', matrix('P'))
        w.stub(A + '_nutation_matrix', matrix('N'))
        w.stub(A + '_polar_motion_matrix', matrix('W'))
    T = centuries(w, kind)
    R = w.get(A + 'itrs')(T)
    ts = ts_of(w, T * CENT + w.const('51544.5'))
    dpsi, deps = w.get(A + '_nutation_angles')(T)
    eps = w.get(A + 'mean_obliquity')(ts.tt - w.const('2400000.5'))
    W = rows(w.get(A + '_polar_motion_matrix')(ts.T))
    N = rows(w.get(A + '_nutation_matrix')(eps, eps + deps, dpsi))
    P = rows(w.get(A + '_precession_matrix')(ts.T))
    B = rows(w.get(A + '_frame_bias_matrix')())
    g = w.get(A + 'gast')(T)
    w.shape_eq('R', R, (3, 3) + w.np.shape(w.np.atleast_1d(T)))
    mat_eq(w, 'R', R, mm(W, R3(w, 2 * w.np.pi * g), N, P, B), g, tol=1e-13)


@contract('P07', 'proper_rotation', functions=['astro.itrs'], trials=6, bounded=True)
def proper_rotation(w):
    """the transformation is a rotation (bounded: random dates)"""
    T = centuries(w, 'array')
    R = w.get(A + 'itrs')(T)
    for i in range(len(T)):
        w.eq('R R^T', R[:, :, i] @ R[:, :, i].T, w.np.eye(3), tol=1e-12)
        w.eq('det', w.np.linalg.det(R[:, :, i]), 1.0, tol=1e-12)


# ------------------------------------------------------ P08: sun and moon
def to_ecef(w, ts, lam, beta, r):
    """ecliptic longitude, latitude and distance to the rotating frame"""
    c, s = w.np.cos, w.np.sin
    eps = w.const('23.43929111') * w.np.pi / 180
    x, y, z = r * c(lam) * c(beta), r * s(lam) * c(beta), r * s(beta)
    y, z = c(eps) * y - s(eps) * z, s(eps) * y + c(eps) * z
    g = ts.gha * w.np.pi / 180
    return c(g) * x + s(g) * y, -s(g) * x + c(g) * y, z


def xyz_eq(w, got, want, ref, tol=1e-9):
    for n, x, y in zip('XYZ', got, want):
        w.shape_eq(n, x, w.np.shape(w.np.atleast_1d(ref)))
        w.eq(n, x, w.np.atleast_1d(y), tol=tol, scale=1e8)


@contract('P08', 'solar_approximate', functions=['astro.solar_approximate', 'astro.solar_ecef'], params=product(kind=['scalar', 'array'], via=['direct', 'solar_ecef', 'Approximate']),
          assumes=ASSUME_TS)
def solar_approximate(w, kind, via):
    """position of the sun: low-precision series of Montenbruck"""
    stub_time(w)
    t = mjd(w, kind)
    f = w.get(A + ('solar_approximate' if via == 'direct' else 'solar_ecef'))
    got = f(t, ephemerides='Approximate') if via == 'Approximate' else f(t)
    ts = ts_of(w, t)
    d = w.np.pi / 180
    M = horner(w, '357.5256, 35999.049, -0.0001559, -0.00000048', ts.T) * d
    c, s = w.np.cos, w.np.sin
    k = w.const
    r = (k('149.619') - k('2.499') * c(M) - k('0.021') * c(2 * M)) * 1000000000
    lam = (k('282.94') + k('1.7192') * ts.T) * d + M + (6892 * s(M) + 72 * s(2 * M)) * d / 3600
    xyz_eq(w, got, to_ecef(w, ts, lam, 0 * lam, r), t)


MOON_R = '385000 0 0 0 0; -20905 1 0 0 0; -3699 -1 0 0 2; -2956 0 0 0 2; -570 2 0 0 0; 246 2 0 0 -2; -205 0 1 0 -2; -171 1 0 0 2; -152 1 1 0 -2'
MOON_L = '22640 1 0 0 0; 769 2 0 0 0; -4586 1 0 0 -2; 2370 0 0 0 2; -668 0 1 0 0; -412 0 0 2 0; -212 2 0 0 -2; -206 1 1 0 -2; 192 1 0 0 2; ' \
    '-165 0 1 0 -2; 148 1 -1 0 0; -125 0 0 0 1; -110 1 1 0 0; -55 0 0 2 -2'
MOON_B = '-526 0 0 1 -2; 44 1 0 1 -2; -31 -1 0 1 -2; -25 -2 0 1 0; -23 0 1 1 -2; 21 -1 0 1 0; 11 0 -1 1 -2'


def lunar(tab, fun, a):
    """sum of the rows: amplitude, multiples of l, l', F and D"""
    out = 0 * a[0]
    for row in tab.split('; '):
        v = [int(x) for x in row.split()]
        out = out + v[0] * fun(sum(k * x for k, x in zip(v[1:], a)) + 0 * a[0])
    return out


@contract('P08', 'lunar_approximate', functions=['astro.lunar_approximate', 'astro.lunar_ecef'], params=product(kind=['scalar', 'array'], via=['direct', 'lunar_ecef', 'Approximate']),
          assumes=ASSUME_TS)
def lunar_approximate(w, kind, via):
    """position of the moon: low-precision series of Montenbruck"""
    stub_time(w)
    t = mjd(w, kind)
    f = w.get(A + ('lunar_approximate' if via == 'direct' else 'lunar_ecef'))
    got = f(t, ephemerides='Approximate') if via == 'Approximate' else f(t)
    ts = ts_of(w, t)
    d = w.np.pi / 180
    sin, cos = w.np.sin, w.np.cos
    S = horner(w, '218.3164477, 481267.88123421, -1.5786e-3, 1.855835e-6, -1.53388e-8', ts.T) * d
    D = horner(w, '297.8501921, 445267.1114034, -1.8819e-3, 1.83195e-6, -8.8445e-9', ts.T) * d
    F = S - horner(w, '125.04452, -1934.136261, 2.0708e-3, 2.22222e-6', ts.T) * d
    M = horner(w, '357.5256, 35999.049', ts.T) * d
    l = horner(w, '134.96292, 477198.86753', ts.T) * d
    a = [l, M, F, D]
    r = lunar(MOON_R, cos, a) * 1000
    u = d / 3600
    lam = S + u * lunar(MOON_L, sin, a)
    beta = u * (18520 * sin(F + lam - S + u * (412 * sin(2 * F) + 541 * sin(M))) + lunar(MOON_B, sin, a))
    xyz_eq(w, got, to_ecef(w, ts, lam, beta, r), t, tol=1e-8)


class FakeSPK:
    """assumed contract of jplephem: segments give positions (km) in the
    celestial frame as functions of the Julian date"""

    def __init__(self, w):
        self.w = w

    def __getitem__(self, k):
        w = self.w

        class Segment:
            def compute(self, jd):
                return w.np.stack([w.uf('spk.%s%s.%s' % (k[0], k[1], x), jd) for x in 'xyz'], axis=0) if w.symbolic else \
                    w.np.array([1e5 * (k[0] + 1) * (i + 1) * w.np.cos(jd * (k[1] % 7 + 1) / 50 + i) for i in range(3)])
        return Segment()


@contract('P08', 'ephemerides', functions=['astro.solar_ephemerides', 'astro.lunar_ephemerides', 'astro.solar_ecef', 'astro.lunar_ecef'],
          params=product(body=['solar', 'lunar'], via=['direct', 'jpl', 'JPL']), assumes=ASSUME_TS + ['jplephem segments are functions of the Julian date'])
def ephemerides(w, body, via):
    """positions from a JPL kernel: sun or moon relative to the earth, rotated
    to the terrestrial frame"""
    import tempfile
    stub_time(w)
    t = mjd(w, 'array')
    path = A + 'jplephem_spk.SPK.open'
    m = __import__('pyTMD.astro').astro
    kernel = os.path.abspath(__file__)
    spk = FakeSPK(w)

    def R(T):
        k, j = w.np.arange(3)[:, None, None], w.np.arange(3)[None, :, None]
        x = w.np.atleast_1d(T)[None, None, :]
        return w.uf('itrs', k + 0 * j + 0 * x, j + 0 * k + 0 * x, x)
    opened = []

    class Module:
        class SPK:
            @staticmethod
            def open(f):
                opened.append(str(f))
                return spk
    old = m.__dict__.get('jplephem_spk')
    m.jplephem_spk = Module
    try:
        w.stub(A + 'itrs', R)
        f = w.get(A + '%s_%s' % (body, 'ephemerides' if via == 'direct' else 'ecef'))
        got = f(t, kernel=kernel) if via == 'direct' else f(t, kernel=kernel, ephemerides=via)
    finally:
        m.jplephem_spk = old
    w.true('kernel', opened == [kernel])
    ts = ts_of(w, t)
    R = w.get(A + 'itrs')((ts.ut1 - w.const('2451545')) / CENT)
    seg = lambda a, b: spk[a, b].compute(ts.tt)
    earth = seg(0, 3) + seg(3, 399)
    p = seg(0, 10) - earth if body == 'solar' else seg(3, 301) - seg(3, 399)
    want = [1000 * sum(R[i, j] * p[j] for j in range(3)) for i in range(3)]
    xyz_eq(w, got, want, t, tol=1e-9)
