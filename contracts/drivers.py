"""Drivers: compute.py"""
import math
import types

from pyvc.contract import contract, product
from . import constants as K

CONS = ['m2', 's2', 'k1', 'o1', 'n2', 'p1', 'k2', 'q1', 'mf', 'mm', 'm4', '2n2']
ASSUME = ('pyproj transformations, timescale conversions and the readers of model.extract_constants as functions of their arguments',)
OTIS_LIKE = ('OTIS', 'ATLAS', 'TMD3', 'netcdf')
EPOCH = (1992, 3, 4, 5, 6, 7)


class TS:
    """timescale.time.Timescale: times as functions of the given times"""

    def __init__(self, w=None, t=None, how=None):
        self.w, self.t, self.how = w, t, how
        if how is not None:
            f = lambda n: w.uf('ts/%s/%s' % (n, how), t)
            self.tide, self.tt_ut1, self.MJD, self.tt, self.UTC = f('tide'), f('tt_ut1'), f('MJD'), f('tt'), f('UTC')

    def symlen(self):
        n = self.w.np.shape(self.t)[0]
        return n.term if hasattr(n, 'term') else n

    def __len__(self):
        return int(self.symlen())


def stub_time(w):
    if not w.symbolic:
        return

    class Timescale:
        def from_deltatime(self, t, epoch=None, standard='UTC', **kw):
            return TS(w, t, 'delta/%s/%s' % (tuple(epoch), standard.upper()))

        def from_datetime(self, t):
            return TS(w, t, 'datetime')
    w.stub('timescale.time.Timescale', Timescale)


def stub_crs(w):
    if not w.symbolic:
        return

    class CRS:
        def from_input(self, e):
            return 'in/%s' % e

        @staticmethod
        def from_epsg(e):
            return 'epsg/%s' % e

    class Transformer:
        @staticmethod
        def from_crs(a, b, always_xy=False):
            class T:
                def transform(self, x, y):
                    return tuple(w.uf('%s/%s>%s/%s' % (n, a, b, always_xy), x, y) for n in ('lon', 'lat'))
            return T()
    w.stub('pyTMD.crs', CRS)
    P = types.SimpleNamespace(CRS=CRS, Transformer=Transformer)
    w.stub('pyTMD.compute.pyproj', P)


def lonlat(w, x, y, epsg):
    """longitudes and latitudes of the points (x, y)"""
    if w.symbolic:
        return tuple(w.uf('%s/in/%s>epsg/4326/True' % (n, epsg), x, y) for n in ('lon', 'lat'))
    import pyproj
    x, y = w.np.asarray(x, dtype=float), w.np.asarray(y, dtype=float)
    if str(epsg) == '4326':
        return x, y
    return pyproj.Transformer.from_crs('EPSG:%s' % epsg, 'EPSG:4326', always_xy=True).transform(x, y)


def times(w, t, time):
    t = w.np.atleast_1d(t)
    T = w.get('timescale.time.Timescale')
    if time.lower() == 'datetime':
        return T().from_datetime(t)
    return T().from_deltatime(t, epoch=EPOCH, standard=time)


class Constants:
    """harmonic constants as functions of the point, kind and constituent"""

    def __init__(self, w, minor):
        self.w = w
        self.c = w.names('constituents', w.dim('nc', lo=6, hi=9), CONS, distinct=True) if w.symbolic else CONS[:8] + w.rng.sample(CONS[8:], 2)
        self.type = ['u', 'v']
        self.corrections = 'FES'
        self.minor = minor
        self.calls = []

    def at(self, lon, lat, kind):
        """(amplitude, phase, mask), one column per constituent"""
        w, np = self.w, self.w.np
        lon, lat = lon[..., None], lat[..., None]
        if w.symbolic:
            k = w.indices(self.c)
            return tuple(w.uf('%s/%s' % (n, kind), lon, lat, k, kind=b) for n, b in (('amp', 'R'), ('ph', 'R'), ('bad', 'B')))
        k = np.arange(len(self.c)) + 3 * ord(kind[0])
        r = np.radians(lon)
        return 1 + 0.7 * np.sin(2 * r + lat / 9 + k), 180 + 150 * np.cos(r - lat / 30 + 2 * k), np.sin(5 * r + lat / 7) + 0.01 * np.sin(k) > 0.6

    def extract_constants(self, lon, lat, **kw):
        np = self.w.np
        self.calls.append(kw)
        if not self.w.symbolic:
            lon, lat = np.array(lon, dtype=float), np.array(lat, dtype=float)
        a, p, m = self.at(lon, lat, kw.get('type'))
        return np.ma.array(a, mask=m), np.ma.array(p, mask=m), self.c


MODELS = {}


def stub_model(w, M, kind):
    class model:
        def __init__(self, directory=None, **kw):
            M.init = (directory, kw)

        def elevation(self, name):
            M.how = ('elevation', name)
            M.type = 'z'
            return M

        def current(self, name):
            M.how = ('current', name)
            return M

        def from_file(self, name):
            M.how = ('file', name)
            M.type = 'z' if kind == 'elevation' else ['u', 'v']
            return M
    w.patch('pyTMD.io.model', model)


def stub_predict(w):
    """contracts of predict.map, drift, time_series and infer_minor: sums of a
    function of one constituent, date and point (P01, P02)"""
    if not w.symbolic:
        return
    np = w.np

    def synth(form):
        def f(t, hc, c, deltat=0.0, corrections='OTIS'):
            d, m = heights(w, form, t, deltat, hc, c, corrections)
            return np.ma.array(d, mask=m)
        return f

    def infer(t, hc, c, deltat=0.0, corrections='OTIS', minor=None):
        form = 'map' if np.ndim(t) == 0 else 'drift'
        d, m = inferred(w, form, t, deltat, hc, c, corrections, minor)
        return np.ma.array(d, mask=m)
    for form in ('map', 'drift', 'time_series'):
        w.stub('pyTMD.predict.' + form, synth(form))
    w.stub('pyTMD.predict.infer_minor', infer)


def _cols(w, form, t, deltat, hc):
    t, deltat = (x[:, None] if w.np.ndim(x) else x for x in (t, deltat))
    return t, deltat, w.data(hc), w.mask(hc)


def heights(w, form, t, dt, hc, c, corr):
    t, dt, z, m = _cols(w, form, t, dt, hc)
    h = w.uf('H/%s' % corr, t, dt, w.indices(c), z)
    d = w.sum(h, 1)
    return d, w.any(w.np.broadcast_to(m, h.shape), 1)


def inferred(w, form, t, dt, hc, c, corr, minor):
    t, dt, z, m = _cols(w, form, t, dt, hc)
    k = w.indices(c)
    h = w.uf('M/%s/%s' % (corr, minor), t, dt, k, z)
    d = w.sum(h, 1)
    return d, w.any(w.np.broadcast_to(m & w.uf('major', k, kind='B'), h.shape), 1)


def point_heights(w, t, dt, z, c, corr, minor):
    """heights of one point with constants z at the times t (natively: the sum
    over its constituents and the inferred minor constituents)"""
    p = w.get('pyTMD.predict.time_series')(t, w.np.ma.array(z[None, :]), c, deltat=dt, corrections=corr)
    if minor is not False:
        p = p + w.get('pyTMD.predict.infer_minor')(t, w.np.ma.array(z[None, :]), c, deltat=dt, corrections=corr, minor=minor)
    return w.np.asarray(p.data if hasattr(p, 'data') else p)


def oracle(w, form, lon, lat, M, kind, ts, corr, minor):
    """(height, mask) of every point and time: drift (n), time series
    (points, times), grid (ny, nx, times)"""
    np = w.np
    t, tt = ts.tide, ts.tt_ut1
    dt = 0 * tt if corr in OTIS_LIKE else tt
    a, p, m = M.at(lon, lat, kind)
    r = p * np.pi / 180
    if w.symbolic:
        k = w.indices(M.c)
        ex = {'drift': lambda x: x, 'time series': lambda x: x[:, None, :], 'grid': lambda x: x[:, :, None, :]}[form]
        # exp(-i phase)
        re, im = ex(a * np.cos(r)), ex(-a * np.sin(r))
        z = re + 1j * im
        T, D = t[:, None], dt[:, None]
        h = w.uf('H/%s' % corr, T, D, k, z)
        want = w.sum(h, h.ndim - 1)
        if minor is not False:
            h2 = w.uf('M/%s/%s' % (corr, minor), T, D, k, z)
            want = want + w.sum(h2, h.ndim - 1)
        bad = w.any(w.np.broadcast_to(ex(m), h.shape), h.ndim - 1)
        return want, bad
    z = a * np.exp(-1j * r)
    bad = np.any(m, axis=-1)
    if form == 'drift':
        want = np.array([point_heights(w, t[i:i + 1], dt[i:i + 1], z[i], M.c, corr, minor)[0] for i in range(len(t))])
    else:
        want = np.array([point_heights(w, t, dt, q, M.c, corr, minor) for q in z.reshape(-1, z.shape[-1])]).reshape(z.shape[:-1] + (len(t),))
        bad = np.broadcast_to(bad[..., None], want.shape)
    return want, bad


def points(w, form, epsg):
    """(x, y, x of points, y of points, number of times)"""
    np = w.np
    lim = dict(lo=-170, hi=170) if epsg == 4326 else dict(lo=-3e6, hi=3e6)
    lit = dict(lo=-85, hi=85) if epsg == 4326 else dict(lo=-3e6, hi=3e6)
    nt = w.dim('nt', hi=4)
    if form == 'drift':
        x, y = w.array('x', (nt,), **lim), w.array('y', (nt,), **lit)
        return x, y, x, y, nt, (nt,)
    if form == 'time series':
        n = w.dim('n', hi=4)
        x, y = w.array('x', (n,), **lim), w.array('y', (n,), **lit)
        return x, y, x, y, nt, (n, nt)
    if form == 'station':
        x, y = w.real('x', **lim), w.real('y', **lit)
        return x, y, np.atleast_1d(x), np.atleast_1d(y), nt, (1, nt)
    ny, nx = w.dim('ny', hi=4), w.dim('nx', hi=4)
    if form == 'axes':
        w.differ(nx, ny)
        x, y = w.array('x', (nx,), **lim), w.array('y', (ny,), **lit)
        X, Y = np.meshgrid(x, y)
        return x, y, X, Y, nt, (ny, nx, nt)
    x, y = w.array('x', (ny, nx), **lim), w.array('y', (ny, nx), **lit)
    return x, y, x, y, nt, (ny, nx, nt)


def dates(w, nt, time):
    if time.lower() == 'datetime' and not w.symbolic:
        s = w.array('t', (nt,), lo=0, hi=9000)
        return w.np.datetime64('1995-01-01') + (86400 * s).astype('timedelta64[s]')
    return w.array('t', (nt,), lo=-2e8, hi=7e8)


FORM = {'drift': 'drift', 'time series': 'time series', 'station': 'time series', 'grid': 'grid', 'axes': 'grid'}
CASES = [dict(form=f, TYPE=t, corr=c, minor=m, time=ti, epsg=e) for f, t, c, m, ti, e in [
    ('drift', 'drift', 'default', 'default', 'UTC', 4326), ('drift', None, 'OTIS', 'given', 'datetime', 3031), ('drift', 'Drift', 'GOT', 'none', 'GPS', 3031),
    ('time series', 'time series', 'default', 'default', 'UTC', 3031), ('time series', 'Time Series', 'ATLAS', 'none', 'datetime', 4326), ('station', None, 'FES', 'given', 'TAI', 4326),
    ('grid', 'grid', 'default', 'default', 'UTC', 3031), ('grid', 'Grid', 'TMD3', 'none', 'LORAN', 4326), ('axes', 'grid', 'GOT', 'given', 'datetime', 3031), ('axes', None, 'netcdf', 'default', 'utc', 4326)]]


def differ_all(w, form, nt, shape):
    """precondition of an automatic type: the sizes tell the forms apart"""
    if form == 'axes':
        pass


def run_tides(w, kind, form, TYPE, corr, minor, time, epsg):
    np = w.np
    stub_time(w)
    stub_crs(w)
    stub_predict(w)
    M = Constants(w, ['m1', 'l2'])
    stub_model(w, M, kind)
    x, y, X, Y, nt, shape = points(w, form, epsg)
    t = dates(w, nt, time)
    if TYPE is None and form == 'axes' and not w.symbolic:
        w.assume(x.size > 1 or y.size > 1)
    fill = -9999.0
    extra = dict(CROP=True, BOUNDS=[1, 2, 3, 4], BUFFER=5, METHOD='bilinear', EXTRAPOLATE=True, CUTOFF=70.0) if form in ('drift', 'axes') else {}
    kw = dict(extra)
    if corr != 'default':
        kw['CORRECTIONS'] = corr
    if minor == 'none':
        kw['INFER_MINOR'] = False
    elif minor == 'given':
        kw['MINOR_CONSTITUENTS'] = ['eta2', 'rho1']
    if kind == 'elevation' and form == 'drift':
        kw.update(APPEND_NODE=True, APPLY_FLEXURE=True)
    snap = w.snapshot(*[v for v in (x, y) if np.ndim(v)])
    f = w.get('pyTMD.compute.tide_%ss' % kind)
    if form in ('axes', 'station'):
        kw['DEFINITION_FILE'] = 'definition.json'
    else:
        kw['MODEL'] = 'a model'
    got = f(x, y, t, EPSG=epsg, EPOCH=EPOCH, TYPE=TYPE, TIME=time, FILL_VALUE=fill, **kw)
    w.true('model', M.how == (('file', 'definition.json') if 'DEFINITION_FILE' in kw else (kind, 'a model')))
    ts = times(w, t, time)
    lon, lat = lonlat(w, X, Y, epsg)
    types_ = ['z'] if kind == 'elevation' else ['u', 'v']
    if kind == 'current':
        w.true('currents', sorted(got) == ['u', 'v'])
    else:
        got = dict(z=got)
    w.true('one extraction for each type', [c['type'] for c in M.calls] == types_)
    for call in M.calls:
        want = dict(crop=False, bounds=None, buffer=None, method='spline', extrapolate=False, cutoff=10.0)
        want.update({k.lower(): v for k, v in extra.items()})
        if kind == 'elevation':
            want.update(append_node=form == 'drift', apply_flexure=form == 'drift')
        for k, v in want.items():
            w.true('option %s' % k, call.get(k) == v)
    cor = 'FES' if corr == 'default' else corr
    mn = {'none': False, 'given': ['eta2', 'rho1'], 'default': ['m1', 'l2']}[minor]
    for q in types_:
        h, bad = oracle(w, FORM[form], lon, lat, M, q, ts, cor, mn)
        w.shape_eq('tide', got[q], shape)
        w.eq('mask', w.mask(got[q]), bad)
        w.eq('tide', w.data(got[q]), h, where=~w.mask(got[q]))
        w.eq('fill value', w.data(got[q]), fill + 0 * h, where=w.mask(got[q]))
    w.unchanged('inputs', snap)


@contract('P21', 'tide_elevations', functions=['compute.tide_elevations'], params=CASES, trials=3, tol=1e-6, assumes=ASSUME)
def tide_elevations(w, **p):
    """height of every point and time: prediction from the constants of that
    point plus the inferred minor constituents"""
    run_tides(w, 'elevation', **p)


@contract('P21', 'tide_currents', functions=['compute.tide_currents'], params=CASES, trials=3, tol=1e-6, assumes=ASSUME)
def tide_currents(w, **p):
    """the same for each component of the currents"""
    run_tides(w, 'current', **p)


# ------------------------------------------------------- other displacements
def expand(w, form, ts_values, point_values):
    """times and values of points as arrays of (points..., times)"""
    if form == 'drift':
        return ts_values, point_values
    T = [t[None, :] if form == 'time series' else t[None, None, :] for t in ts_values]
    P = [p[..., None] for p in point_values]
    one = 0 * (T[0] + P[0])
    return [t + one for t in T], [p + one for p in P]


def vector_stub(w, name, record=None):
    """displacement as a function of date, station and parameters (P09, P10)"""
    np = w.np

    def col(x):
        return [x[:, i] for i in range(3)]

    def f(t, XYZ, *arrays, **kw):
        args = [t] + col(XYZ)
        for a in arrays:
            args += col(a)
        keys = ''
        for k in sorted(kw):
            if isinstance(kw[k], (str, complex)):
                keys += '/%s=%s' % (k, kw[k])
            else:
                args.append(kw[k])
                keys += '/' + k
        return np.stack([w.uf('%s/%d%s' % (name, i, keys), *args) for i in range(3)], axis=1)
    w.stub('pyTMD.predict.' + name, f)


def displacement(w, name, t, XYZ, *arrays, **kw):
    """the three components for N-D arrays of dates and stations"""
    np = w.np
    if w.symbolic:
        args = [t] + list(XYZ)
        for a in arrays:
            args += list(a)
        keys = ''
        for k in sorted(kw):
            if isinstance(kw[k], (str, complex)):
                keys += '/%s=%s' % (k, kw[k])
            else:
                args.append(kw[k])
                keys += '/' + k
        return [w.uf('%s/%d%s' % (name, i, keys), *args) for i in range(3)]
    flat = lambda x: np.ravel(np.broadcast_to(x, np.shape(t)))
    kw = {k: (flat(v) if np.ndim(v) else v) for k, v in kw.items()}
    d = w.get('pyTMD.predict.' + name)(flat(t), np.stack([flat(x) for x in XYZ], axis=1), *[np.stack([flat(x) for x in a], axis=1) for a in arrays], **kw)
    return [np.reshape(d[:, i], np.shape(t)) for i in range(3)]


def station(w, lon, lat, a, f):
    """Cartesian coordinates of points on the ellipsoid (P14): distance from the
    axis (not zero) along the meridian, and z"""
    np = w.np
    if w.symbolic:
        r = w.uf('distance from the axis', lon, lat, a, f, lo=1)
        z = w.uf('distance from the equator', lon, lat, a, f)
        lon = lon * np.pi / 180
    else:
        lon, lat = lon * np.pi / 180, lat * np.pi / 180
        e2 = 2 * f - f * f
        N = a / np.sqrt(1 - e2 * np.sin(lat) ** 2)
        r, z = N * np.cos(lat), N * (1 - e2) * np.sin(lat)
    return [r * np.cos(lon), r * np.sin(lon), z]


def stub_cartesian(w):
    if w.symbolic:
        w.stub('pyTMD.spatial.to_cartesian', lambda lon, lat, h=0.0, a_axis=6378137.0, flat=1.0 / 298.257223563: tuple(station(w, lon, lat, a_axis, flat)))


def norm(w, X):
    return w.np.sqrt(X[0] ** 2 + X[1] ** 2 + X[2] ** 2)


RCASES = [dict(form=f, TYPE=t, time=ti, epsg=e) for f, t, ti, e in [
    ('drift', 'drift', 'UTC', 4326), ('drift', None, 'datetime', 3031), ('drift', 'Drift', 'GPS', 3031),
    ('time series', 'time series', 'UTC', 3031), ('time series', 'Time Series', 'datetime', 4326), ('station', None, 'TAI', 4326),
    ('grid', 'grid', 'UTC', 3031), ('grid', 'Grid', 'LORAN', 4326), ('axes', 'grid', 'datetime', 3031), ('axes', None, 'utc', 4326)]]


def setting(w, form, TYPE, time, epsg):
    np = w.np
    stub_time(w)
    stub_crs(w)
    x, y, X, Y, nt, shape = points(w, form, epsg)
    t = dates(w, nt, time)
    lon, lat = lonlat(w, X, Y, epsg)
    ts = times(w, t, time)
    snap = w.snapshot(*[v for v in (x, y) if np.ndim(v)])
    kw = dict(EPSG=epsg, EPOCH=EPOCH, TYPE=TYPE, TIME=time)
    return x, y, t, shape, lon, lat, ts, snap, kw


@contract('P21', 'LPET_elevations', functions=['compute.LPET_elevations'], params=RCASES, trials=4, tol=1e-9, assumes=ASSUME)
def LPET_elevations(w, form, **p):
    """equilibrium tide of every point at the dynamical time of every date"""
    x, y, t, shape, lon, lat, ts, snap, kw = setting(w, form, **p)
    if w.symbolic:
        w.stub('pyTMD.predict.equilibrium_tide', lambda t, lat: w.np.atleast_1d(w.uf('lpet', t, lat)))
    got = w.get('pyTMD.compute.LPET_elevations')(x, y, t, **kw)
    (T,), (L,) = expand(w, FORM[form], [ts.tide + ts.tt_ut1], [lat])
    if w.symbolic:
        want = w.uf('lpet', T, L)
    else:
        want = w.np.reshape(w.get('pyTMD.predict.equilibrium_tide')(T.ravel(), L.ravel()), T.shape)
    w.shape_eq('tide', got, shape)
    w.eq('tide', got, want)
    w.unchanged('inputs', snap)


ELL = ('WGS84', 'GRS80', 'TOPEX')


def valid_radial(w, got, want, shape):
    w.shape_eq('displacement', got, shape)
    if hasattr(got, 'mask') and not w.symbolic:
        w.eq('valid', w.mask(got), w.np.zeros(w.np.shape(got), dtype=bool))
    w.eq('radial displacement', w.data(got), want)


@contract('P21', 'LPT_displacements', functions=['compute.LPT_displacements'], params=[dict(c, ell=ELL[i % 3], conv=('2018', '2003', '2010')[i % 3]) for i, c in enumerate(RCASES)], trials=3, tol=1e-9, assumes=ASSUME)
def LPT_displacements(w, form, ell, conv, **p):
    """radial component of the load pole tide at every point and date"""
    x, y, t, shape, lon, lat, ts, snap, kw = setting(w, form, **p)
    stub_cartesian(w)
    if w.symbolic:
        vector_stub(w, 'load_pole_tide')
    got = w.get('pyTMD.compute.LPT_displacements')(x, y, t, ELLIPSOID=ell, CONVENTION=conv, **kw)
    d = w.get('pyTMD.datum')(ellipsoid=ell, units='MKS')
    X = station(w, lon, lat, d.a_axis, d.flat)
    # colatitude of the station
    theta = w.np.pi / 2 - w.np.arctan(X[2] / w.np.sqrt(X[0] ** 2 + X[1] ** 2))
    (T, D), Q = expand(w, FORM[form], [ts.tide, ts.tt_ut1], X + [d.gamma_0(theta)])
    v = displacement(w, 'load_pole_tide', T, Q[:3], deltat=D, gamma_0=Q[3], omega=d.omega, h2=w.const('0.6207'), l2=w.const('0.0836'), convention=conv)
    r = norm(w, Q[:3])
    valid_radial(w, got, (v[0] * Q[0] + v[1] * Q[1] + v[2] * Q[2]) / r, shape)
    w.unchanged('inputs', snap)


def loading(w, lon, lat, method):
    """coefficients of the ocean response (radial, north, east)"""
    if w.symbolic:
        return tuple(w.uf('coefficients/%s/%s' % (n, method), lon, lat, kind='C') for n in ('r', 'n', 'e'))
    np = w.np
    r, k = np.radians(lon), len(method)
    return tuple(np.sin(r + i + k) * np.cos(lat / 20) + 1j * np.cos(2 * r - i - lat / 9) for i in range(3))


@contract('P21', 'OPT_displacements', functions=['compute.OPT_displacements'], params=[dict(c, ell=ELL[i % 3], conv=('2018', '2003', '2010')[i % 3], method=('spline', 'linear')[i % 2]) for i, c in enumerate(RCASES)],
          trials=3, tol=1e-8, assumes=ASSUME)
def OPT_displacements(w, form, ell, conv, method, **p):
    """radial component of the ocean pole tide with the radial coefficients at
    the geocentric latitude of every point"""
    np = w.np
    x, y, t, shape, lon, lat, ts, snap, kw = setting(w, form, **p)
    stub_cartesian(w)
    w.patch('pyTMD.io.IERS.extract_coefficients', lambda lon, lat, method='spline', **k: loading(w, lon, lat, method))
    G = (w.const('0.6870'), w.const('0.0036'))

    def response(t, dt, a, g, GM, om, rho, g2, conv):
        return [w.uf('ocean pole/%s/%s' % (n, conv), t, dt, a, g, GM, om, rho, g2.real, g2.imag) for n in 'AB']

    if w.symbolic:
        # P10: linear in the real and imaginary parts of the coefficients
        def tide(t, XYZ, UXYZ, deltat=0.0, gamma_0=None, a_axis=None, GM=None, omega=None, rho_w=None, g2=None, convention=None):
            A, B = response(t, deltat, a_axis, gamma_0, GM, omega, rho_w, g2, convention)
            return np.stack([A * UXYZ[:, i].real + B * UXYZ[:, i].imag for i in range(3)], axis=1)
        w.stub('pyTMD.predict.ocean_pole_tide', tide)
        # dates are given as dates of a calendar
        w.stub('timescale.time.convert_julian', lambda JD, **k: tuple(w.uf('cal/' + c, JD) for c in 'YMDhms'))
        w.stub('timescale.time.convert_calendar_decimal', lambda Y, M, **k: w.uf('decimal', Y))
    got = w.get('pyTMD.compute.OPT_displacements')(x, y, t, ELLIPSOID=ell, CONVENTION=conv, METHOD=method, **kw)
    d = w.get('pyTMD.datum')(ellipsoid=ell, units='MKS')
    X = station(w, lon, lat, d.a_axis, d.flat)
    gc = np.arctan(X[2] / np.sqrt(X[0] ** 2 + X[1] ** 2)) * 180 / np.pi
    ur = loading(w, lon, gc, method)[0]
    (T, D), Q = expand(w, FORM[form], [ts.tide, ts.tt_ut1], X + [ur.real, ur.imag])
    c = dict(gamma_0=w.const('9.7803278'), a_axis=d.a_axis, GM=d.GM, omega=d.omega, rho_w=w.const('1025'), g2=0.6870 + 0.0036j, convention=conv)
    if w.symbolic:
        A, B = response(T, D, c['a_axis'], c['gamma_0'], c['GM'], c['omega'], c['rho_w'], c['g2'], conv)
        want = A * Q[3] + B * Q[4]
    else:
        r = norm(w, Q[:3])
        v = displacement(w, 'ocean_pole_tide', T, Q[:3], [(Q[3] + 1j * Q[4]) * Q[i] / r for i in range(3)], deltat=D, **c)
        want = (v[0] * Q[0] + v[1] * Q[1] + v[2] * Q[2]) / r
    valid_radial(w, got, want, shape)
    w.unchanged('inputs', snap)


def stub_bodies(w):
    if not w.symbolic:
        return
    for n in ('solar', 'lunar'):
        w.stub('pyTMD.astro.%s_ecef' % n, lambda MJD, ephemerides='approximate', n=n, **k: tuple(w.uf('%s/%s/%s' % (n, c, ephemerides), MJD) for c in 'XYZ'))


@contract('P21', 'SET_displacements', functions=['compute.SET_displacements'], params=[dict(c, ell=ELL[i % 3], system=('tide_free', 'mean_tide')[i % 2]) for i, c in enumerate(RCASES)],
          trials=3, tol=1e-8, assumes=ASSUME)
def SET_displacements(w, form, ell, system, **p):
    """radial component of the solid earth tide at every point and dynamical time
    with the sun and moon of that date"""
    np = w.np
    x, y, t, shape, lon, lat, ts, snap, kw = setting(w, form, **p)
    stub_cartesian(w)
    stub_bodies(w)
    if w.symbolic:
        vector_stub(w, 'solid_earth_tide')
    got = w.get('pyTMD.compute.SET_displacements')(x, y, t, ELLIPSOID=ell, TIDE_SYSTEM=system, **kw)
    d = w.get('pyTMD.datum')(ellipsoid=ell, units='MKS')
    X = station(w, lon, lat, d.a_axis, d.flat)
    S, L = (w.get('pyTMD.astro.%s_ecef' % n)(ts.MJD, ephemerides='approximate') for n in ('solar', 'lunar'))
    V, Q = expand(w, FORM[form], [ts.tide + ts.tt_ut1] + list(S) + list(L), X)
    v = displacement(w, 'solid_earth_tide', V[0], Q, V[1:4], V[4:7], a_axis=d.a_axis, tide_system=system)
    w.shape_eq('displacement', got, shape)
    w.eq('radial displacement', got, (v[0] * Q[0] + v[1] * Q[1] + v[2] * Q[2]) / norm(w, Q))
    w.unchanged('inputs', snap)


@contract('P21', 'data_type', functions=['spatial.data_type'])
def data_type(w):
    """types by the sizes of the coordinates and times"""
    np = w.np
    n, m, k = w.dim('n'), w.dim('m'), w.dim('k')
    f = w.get('pyTMD.spatial.data_type')
    a, b, c = w.array('a', (n,)), w.array('b', (m,)), w.array('c', (k,))
    g = w.array('g', (n, m))
    one = w.array('o', (1,))
    w.true('one point', f(one, one, a) == 'time series' and f(1.0, 2.0, 3.0) == 'time series' and f(1.0, 2.0, a) == 'time series')
    w.true('a point for each time', f(a, a, a) == 'drift')
    w.differ(n, m)
    w.true('axes', f(a, b, c) == 'grid' and f(a, one, c) == 'grid' and f(one, a, 1.0) == 'grid')
    w.differ(n, k)
    w.raises('no type', ValueError, lambda: f(a, a, c))
    w.assume(w.size(n) * w.size(m) != w.size(k))
    w.true('matrices', f(g, g, c) == 'grid')


CORRECTION = {'ocean': 'tide_elevations', 'Load': 'tide_elevations', 'lpet': 'LPET_elevations', 'LPT': 'LPT_displacements', 'Opt': 'OPT_displacements', 'SET': 'SET_displacements'}


@contract('P21', 'corrections', functions=['compute.corrections'], params=product(kind=list(CORRECTION)))
def corrections(w, kind):
    """each kind calls its driver with the same arguments"""
    calls = []
    for n in set(CORRECTION.values()):
        w.patch('pyTMD.compute.' + n, lambda *a, n=n, **k: calls.append((n, a, k)) or n)
    got = w.get('pyTMD.compute.corrections')('x', 'y', 't', CORRECTION=kind, EPSG=3413, METHOD='linear')
    w.true('driver', got == CORRECTION[kind])
    w.true('arguments', calls == [(got, ('x', 'y', 't'), dict(EPSG=3413, METHOD='linear'))])
    w.raises('unknown', ValueError, lambda: w.get('pyTMD.compute.corrections')('x', 'y', 't', CORRECTION='ice'))


FORMATS = ['OTIS', 'ATLAS-compact', 'TMD3', 'ATLAS-netcdf', 'GOT-ascii', 'GOT-netcdf', 'FES-netcdf', 'FES-ascii']
MASKS = [dict(fmt=FORMATS[i], method=m, epsg=(4326, 3031)[(i + j) % 2], form=('points', 'grid', 'point')[(i + 2 * j) % 3])
         for i in range(8) for j, m in enumerate(('spline', 'bilinear', 'linear', 'nearest'))]


@contract('P21', 'tide_masks', functions=['compute.tide_masks'], params=MASKS, trials=12, tol=1e-12, assumes=ASSUME)
def tide_masks(w, fmt, method, epsg, form):
    """a point is valid if it is within the grid and not all of the surrounding
    nodes are invalid in the grid of the model, in the coordinates of the model"""
    np = w.np
    stub_crs(w)
    nx, ny = w.dim('nx', lo=2, hi=6), w.dim('ny', lo=2, hi=6)
    n, m = w.dim('n', lo=1, hi=5), w.dim('m', lo=1, hi=4)
    shape = dict(points=(n,), grid=(n, m), point=())[form]
    local = epsg == 4326 and fmt in ('OTIS', 'TMD3') and method != 'spline'     # model grid in map coordinates
    west = not local and fmt in ('OTIS', 'TMD3') and method in ('nearest', 'spline')
    if local:
        xi, yi = w.axis('x', nx, lo=-3e6, hi=3e6), w.axis('y', ny, lo=-3e6, hi=3e6)
    else:
        xi, yi = w.axis('x', nx, lo=-180 if west else 0, hi=180 if west else 360), w.axis('y', ny, lo=-90, hi=90)
        if not w.symbolic and w.rng.random() < 0.5:
            # around the globe
            xi = (-180.0 if west else 0.0) + (np.arange(nx) + w.rng.choice([0, 0.5])) * 360.0 / nx
    z = w.array('bad', (ny, nx), kind='B')
    lim, lit = (dict(lo=-170, hi=350), dict(lo=-89, hi=89)) if epsg == 4326 else (dict(lo=-9e6, hi=9e6),) * 2
    x, y = (w.array('px', shape, **lim), w.array('py', shape, **lit)) if shape else (w.real('px', **lim), w.real('py', **lit))
    if not w.symbolic:
        r = w.rng
        z = np.array(np.array([[r.random() for _ in range(nx)] for _ in range(ny)]) < r.choice([0.3, 0.6, 0.9]))
    proj = '3413' if local else '4326'
    to_model = lambda lon, lat: (lon, lat)
    if local:
        if w.symbolic:
            to_model = lambda lon, lat: tuple(w.uf('model/' + k, lon, lat) for k in 'xy')
        else:
            import pyproj
            T = pyproj.Transformer.from_crs('EPSG:4326', 'EPSG:3413', always_xy=True)
            to_model = lambda lon, lat: T.transform(lon, lat)
    if w.symbolic:
        base = w.get('pyTMD.crs')

        class CRS(base):
            is_geographic = not local

            def get(self, P):
                w.true('projection of the model', P == proj)
                return self

            def transform(self, lon, lat, EPSG=4326, direction='FORWARD'):
                w.true('to the model', str(direction).upper().endswith('FORWARD'))
                return to_model(lon, lat)

            def convert(self, lon, lat, P, BF, **k):
                w.true('projection of the model', P == proj and BF == 'F')
                return to_model(lon, lat)
        w.stub('pyTMD.crs', CRS)
    if not w.symbolic:
        # points spread over the domain of the model
        import pyproj
        r = w.rng
        k = int(np.prod(shape, dtype=int))
        u, v = (np.array([r.choice(list(g)) if r.random() < 0.1 else g[0] + (g[-1] - g[0]) * r.uniform(-0.2, 1.2) for _ in range(k)]) for g in (xi, yi))
        if not local:
            v = np.clip(v, -89, 89)
        lon, lat = pyproj.Transformer.from_crs('EPSG:' + proj, 'EPSG:4326', always_xy=True).transform(u, v)
        lon, lat = (np.array(a) for a in (lon, lat))
        lon = np.where((lon > 180) & (np.array([r.random() for _ in lon]) < 0.5), lon - 360, lon)
        if west:
            lon = np.where((lon < 0) & (np.array([r.random() for _ in lon]) < 0.5), lon + 360, lon)
        if epsg != 4326:
            lat = np.clip(lat, -89, 60)
            lon, lat = pyproj.Transformer.from_crs('EPSG:4326', 'EPSG:%d' % epsg, always_xy=True).transform(lon, lat)
        x, y = (float(np.ravel(a)[0]) if form == 'point' else np.reshape(a, shape) for a in (lon, lat))
    model = types.SimpleNamespace(format=fmt, grid_file='grid', model_file=['a file', 'another'], projection=proj, compressed=True, type='z', version='FES2014')
    how = []

    class Model:
        def __init__(self, directory=None, compressed=False, **k):
            self.c = compressed

        def elevation(self, name):
            how.append((name, self.c))
            return model
    w.patch('pyTMD.io.model', Model)
    read = []
    hz = np.ma.array(w.array('depth', (ny, nx), lo=1, hi=2), mask=z)
    wet = 1 * ~z

    def reader(name, *out):
        def f(file, **k):
            read.append((name, str(file), k.get('compressed'), k.get('type'), k.get('version')))
            return out
        mod, fn = name.split('.')
        w.patch('pyTMD.io.%s.%s' % (mod, fn), f)
    reader('OTIS.read_otis_grid', xi, yi, hz, wet, [], 12.0)
    reader('OTIS.read_netcdf_grid', xi, yi, hz, wet, hz)
    reader('OTIS.read_atlas_grid', 'x', 'y', 'hz', 'mz', [], 12.0, 'pmask', 'local')
    w.patch('pyTMD.io.OTIS.combine_atlas_model', lambda x, y, h, p, l, variable: (w.true('depth', (x, y, h, p, l, variable) == ('x', 'y', 'hz', 'pmask', 'local', 'depth')), (xi, yi, hz))[1])
    w.patch('pyTMD.io.OTIS.create_atlas_mask', lambda x, y, q, l, variable: (w.true('coastline', (x, y, q, l, variable) == ('x', 'y', 'mz', 'local', 'depth')), wet)[1])
    reader('ATLAS.read_netcdf_grid', xi, yi, hz)
    reader('GOT.read_ascii_file', hz, xi, yi, 'm2')
    reader('GOT.read_netcdf_file', hz, xi, yi, 'm2')
    reader('FES.read_netcdf_file', hz, xi, yi)
    reader('FES.read_ascii_file', hz, xi, yi)
    made = []
    if w.symbolic:
        def surface(a, b, f, p, q, kind):
            made.append((a, b, f, kind))
            s = w.uf('surface', p, q)
            return s

        class Spline:
            def __init__(self, a, b, f, kx=3, ky=3):
                self.a = a, b, f.T, (kx, ky)

            def ev(self, p, q):
                return surface(*self.a[:3], p, q, self.a[3])

        class Regular:
            def __init__(self, axes, f, method='linear', bounds_error=True, fill_value=None):
                w.true('outside', bounds_error is False)
                self.a = axes[1], axes[0], f, method

            def __call__(self, at):
                return surface(*self.a[:3], at[:, 1], at[:, 0], self.a[3])

        def bilinear(a, b, f, p, q, fill_value=0, dtype=None):
            s = surface(a, b, f, p, q, 'bilinear')
            out = ~((p >= a.min()) & (p <= a.max()) & (q > b.min()) & (q < b.max()))
            return np.ma.array(np.where(out, fill_value, s), mask=out)
        w.stub('scipy.interpolate.RectBivariateSpline', Spline)
        w.stub('scipy.interpolate.RegularGridInterpolator', Regular)
        w.stub('pyTMD.interpolate.bilinear', bilinear)
    if not local:
        K.stub_extension(w, 'OTIS', xi)
    snap = w.snapshot(*[a for a in (x, y) if shape])
    got = w.get('pyTMD.compute.tide_masks')(x, y, MODEL='a model', GZIP=True, EPSG=epsg, METHOD=method)
    name = dict(zip(FORMATS, ('OTIS.read_otis_grid', 'OTIS.read_atlas_grid', 'OTIS.read_netcdf_grid', 'ATLAS.read_netcdf_grid', 'GOT.read_ascii_file', 'GOT.read_netcdf_file', 'FES.read_netcdf_file', 'FES.read_ascii_file')))[fmt]
    w.true('model', how == [('a model', True)])
    w.true('one grid', len(read) == 1 and read[0][:2] == (name, 'a file' if fmt[:3] in ('GOT', 'FES') else 'grid'))
    if fmt in ('ATLAS-netcdf', 'GOT-ascii', 'GOT-netcdf', 'FES-netcdf', 'FES-ascii'):
        w.true('compressed', read[0][2] is True)
    if fmt in ('ATLAS-netcdf', 'FES-netcdf'):
        w.true('type', read[0][3] == 'z')
    if fmt == 'FES-netcdf':
        w.true('version', read[0][4] == 'FES2014')
    X, Y = to_model(*lonlat(w, np.atleast_1d(x).flatten(), np.atleast_1d(y).flatten(), epsg))
    if not local:
        if fmt in FORMATS[:3]:
            X = np.where(X < xi.min(), X + 360, X)
            X = np.where(X > xi.max(), X - 360, X)
        else:
            X = np.where(X < 0, X + 360, X)
    X, Y = np.reshape(X, shape), np.reshape(Y, shape)
    w.shape_eq('valid', got, shape)
    # around the globe
    xi, more = K.extended(w, 'OTIS', xi, not local)
    z = more(z)
    if not w.symbolic:
        w.axes['x'] = xi
    inside = (X >= xi.min()) & (X <= xi.max()) & (Y >= yi.min()) & (Y <= yi.max())
    if method == 'bilinear':
        inside = inside & (Y > yi.min()) & (Y < yi.max())
    if w.symbolic:
        a, b, f, kind = made[0]
        w.true('surface', len(made) == 1 and kind == ((1, 1) if method == 'spline' else method))
        w.eq('longitudes of the surface', a, xi)
        w.eq('latitudes of the surface', b, yi)
        w.eq('surface of the mask', 1 * f, 1 * z)
        s = w.uf('surface', X, Y)
        land = s >= 1
        sea = (s >= 0) & (s <= 0.99999)
    else:
        i, j = w.bracket('x', X), w.bracket('y', Y)
        u, v = (X - xi[i]) / (xi[i + 1] - xi[i]), (Y - yi[j]) / (yi[j + 1] - yi[j])
        if method == 'nearest':
            i, j = i + (u > 0.5), j + (v > 0.5)
            clear = (abs(u - 0.5) > 1e-6) & (abs(v - 0.5) > 1e-6)
            land, sea = z[j, i] & clear, ~z[j, i] & clear
        else:
            s = np.zeros(np.shape(X))
            for p in (0, 1):
                for q in (0, 1):
                    s = s + (u if p else 1 - u) * (v if q else 1 - v) * z[j + q, i + p]
            land, sea = s > 1 - 1e-9, s < 0.99999
        # on the edge of the grid
        edge = (abs(X - xi[0]) < 1e-6) | (abs(X - xi[-1]) < 1e-6) | (abs(Y - yi[0]) < 1e-6) | (abs(Y - yi[-1]) < 1e-6)
        inside, off = inside & ~edge, ~inside & ~edge
        w.eq('outside', got, np.zeros_like(off), where=off)
    w.eq('valid', got, True | inside, where=inside & sea)
    w.eq('masked', got, False & inside, where=inside & land)
    if w.symbolic:
        w.eq('outside', got, False & inside, where=~inside)
    w.unchanged('inputs', snap)


@contract('P21', 'extract_coefficients', functions=['io.IERS.extract_coefficients'], params=product(method=['default', 'linear', 'nearest'], file=['default', 'given']), trials=10, tol=1e-9, assumes=ASSUME)
def extract_coefficients(w, method, file):
    """coefficients of the map at every point, whatever its longitude convention"""
    np = w.np
    n = w.dim('n')
    if w.symbolic:
        nx, ny = w.dim('nx', lo=2), w.dim('ny', lo=2)
        glon, glat = w.array('glon', (nx,)), w.array('glat', (ny,))
        U = {k: w.array('U' + k, (nx, ny), kind='C') for k in 'RNE'}
    else:
        # a smaller map in the convention of the reader, periodic
        glon, glat = -182.5 + 5.0 * np.arange(73), np.arange(87.5, -90, -5.0)
        a = [w.rng.uniform(-3, 3) for _ in range(6)]
        U = {}
        for q, k in enumerate('RNE'):
            v = np.sin(np.radians(glon[:, None] + a[q])) * np.cos(np.radians(glat[None, :])) + 1j * np.cos(np.radians(2 * glon[:, None] + glat[None, :] * a[q + 1])) + q
            U[k] = v.astype(np.clongdouble)
    p, q = w.array('p', (n,), lo=-360, hi=720), w.array('q', (n,), lo=-87.5, hi=87.5)
    calls = []
    w.patch('pyTMD.io.IERS.read_binary_file', lambda **k: calls.append(k) or (U['R'], U['N'], U['E'], glon, glat))
    if w.symbolic:
        def part(a, b, f, x, y, kind):
            for nm in 'RNE':
                for c, g in (('re', U[nm].real), ('im', U[nm].imag)):
                    g = g[:, ::-1]
                    if all(s is t for s, t in zip((1 * f).a.ravel(), (1 * g).a.ravel())):
                        w.eq('longitudes of the map', a, glon)
                        w.eq('latitudes of the map', b, glat[::-1])
                        return w.uf('%s/%s/%s' % (nm, c, kind), x, y)
            w.true('values of the map', False)

        class Spline:
            def __init__(self, a, b, f, kx=3, ky=3):
                self.a = a, b, f, (kx, ky)

            def ev(self, x, y):
                return part(*self.a[:3], x, y, 'bilinear' if self.a[3] == (1, 1) else 'spline')

        class Regular:
            def __init__(self, axes, f, method='linear', bounds_error=True, fill_value=np.nan):
                w.true('outside', bounds_error is False)
                self.a = axes[0], axes[1], f, method

            def __call__(self, at):
                a, b, f, m = self.a
                m = 'bilinear' if m == 'linear' else m
                return part(a, b, f.real, at[:, 0], at[:, 1], m) + 1j * part(a, b, f.imag, at[:, 0], at[:, 1], m)
        w.stub('scipy.interpolate.RectBivariateSpline', Spline)
        w.stub('scipy.interpolate.RegularGridInterpolator', Regular)
    kw = {} if method == 'default' else dict(method=method)
    if file == 'given':
        kw['model_file'] = 'a file'
    snap = w.snapshot(p, q)
    got = w.get('pyTMD.io.IERS.extract_coefficients')(p, q, **kw)
    w.true('one map', len(calls) == 1)
    if file == 'given':
        w.true('file', str(calls[0].get('model_file')) == 'a file')
    x = glon[0] + np.mod(p - glon[0], 360)
    for k, v in zip('RNE', got):
        w.shape_eq('coefficients', v, (n,))
        if w.symbolic:
            m = 'nearest' if method == 'nearest' else 'bilinear'
            w.eq('real part', v.real, w.uf('%s/re/%s' % (k, m), x, q))
            w.eq('imaginary part', v.imag, w.uf('%s/im/%s' % (k, m), x, q))
        else:
            f, g = U[k][:, ::-1], glat[::-1]
            i, j = np.clip(((x - glon[0]) // 5).astype(int), 0, len(glon) - 2), np.clip(((q - g[0]) // 5).astype(int), 0, len(g) - 2)
            u, t = (x - glon[i]) / 5, (q - g[j]) / 5
            if method == 'nearest':
                w.assume(np.all(abs(u - 0.5) > 1e-6) and np.all(abs(t - 0.5) > 1e-6))
                want = f[i + (u > 0.5), j + (t > 0.5)]
            else:
                want = (1 - u) * (1 - t) * f[i, j] + u * (1 - t) * f[i + 1, j] + (1 - u) * t * f[i, j + 1] + u * t * f[i + 1, j + 1]
            w.eq('coefficients', v, want)
    w.unchanged('inputs', snap)


@contract('P21', 'read_binary_file', functions=['io.IERS.read_binary_file', 'io.IERS._extend_array', 'io.IERS._extend_matrix', 'io.IERS._shift'], trials=4, tol=1e-12, bounded=True)
def read_binary_file(w):
    """every value of the file at its node; longitudes continue around the globe"""
    import gzip
    import os
    import tempfile
    np, r = w.np, w.rng
    k = r.randrange(1, 400)
    ln = np.array([r.choice([0, 1, 358, 359, 360, 361, 718, 719]) if r.random() < 0.3 else r.randrange(720) for _ in range(k)])
    lt = np.array([r.choice([0, 359]) if r.random() < 0.1 else r.randrange(360) for _ in range(k)])
    _, first = np.unique(ln * 1000 + lt, return_index=True)
    ln, lt = ln[first], lt[first]
    v = np.array([[r.uniform(-1, 1) for _ in range(6)] for _ in ln])
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'map.txt.gz')
        with gzip.open(f, 'wt') as g:
            g.write('Ocean pole load tide\n' * r.randrange(1, 5) + '-' * 40 + '\n')
            for a, b, c in zip(ln, lt, v):
                g.write('%8.2f%8.2f' % (a / 2 + 0.25, 89.75 - b / 2) + ''.join(' %.17e' % e for e in c) + '\n')
        UR, UN, UE, glon, glat = w.get('pyTMD.io.IERS.read_binary_file')(model_file=f)
    w.shape_eq('latitudes', glat, (360,))
    w.eq('latitudes', glat, 89.75 - 0.5 * np.arange(360))
    w.eq('longitudes in order', np.diff(glon), np.full(len(glon) - 1, 0.5))
    w.true('around the globe', glon[-1] - glon[0] >= 360)
    for q, U in enumerate((UR, UN, UE)):
        full = np.zeros((720, 360), dtype=complex)
        full[ln, lt] = v[:, 2 * q] + 1j * v[:, 2 * q + 1]
        i = np.rint(np.mod(glon, 360) * 2 - 0.5).astype(int)
        w.shape_eq('coefficients', U, (len(glon), 360))
        w.eq('coefficients', U, full[i])
