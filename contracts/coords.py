"""Coordinates: geodetic/cartesian/spherical, local frames, angle formats,
ellipsoids (spatial.py, crs.py)"""
from pyvc.contract import contract, product

A_AX = '6378137'


def scalars(kind):
    return None if kind == 'scalar' else ()


def vec(w, kind, name, **kw):
    """scalar or array input"""
    return w.real(name, **kw) if kind == 'scalar' else w.array(name, (w.dim('n'),), **kw)


def ell(w):
    a = w.real('a', lo=6.3e6, hi=6.4e6)
    f = w.real('f', lo=0.001, hi=0.01)
    return a, f


LAT = dict(lo=-90, hi=90, special=(-90.0, 90.0, 0.0, 45.0, -45.0))
LON = dict(lo=-360, hi=360, special=(-180.0, 180.0, 0.0, 90.0, -90.0, 360.0, 270.0))


@contract('P14', 'to_cartesian', functions=['spatial.to_cartesian'], params=product(kind=['scalar', 'array']))
def to_cartesian(w, kind):
    """position = foot point on the ellipsoid + height along the ellipsoid
    normal; the arguments are not modified"""
    np = w.np
    a, f = ell(w)
    lon, lat = vec(w, kind, 'lon', **LON), vec(w, kind, 'lat', **LAT)
    h = vec(w, kind, 'h', lo=-1000, hi=10000)
    snap = w.snapshot(lon, lat, h) if kind == 'array' else []
    X, Y, Z = w.get('pyTMD.spatial.to_cartesian')(lon, lat, h=h, a_axis=a, flat=f)
    la, ph = lon * np.pi / 180, lat * np.pi / 180
    e2 = f * (2 - f)
    N = a / np.sqrt(1 - e2 * np.sin(ph) ** 2)
    w.eq('X', X, (N + h) * np.cos(ph) * np.cos(la), scale=1e7)
    w.eq('Y', Y, (N + h) * np.cos(ph) * np.sin(la), scale=1e7)
    w.eq('Z', Z, (N * (1 - f) ** 2 + h) * np.sin(ph), scale=1e7)
    w.unchanged('inputs', snap)


@contract('P14', 'on_ellipsoid', functions=['spatial.to_cartesian'], params=product(kind=['scalar', 'array']))
def on_ellipsoid(w, kind):
    """zero height lies on the ellipsoid"""
    np = w.np
    a, f = ell(w)
    lon, lat = vec(w, kind, 'lon', **LON), vec(w, kind, 'lat', **LAT)
    X, Y, Z = w.get('pyTMD.spatial.to_cartesian')(lon, lat, a_axis=a, flat=f)
    b = a * (1 - f)
    w.eq('ellipsoid', (X ** 2 + Y ** 2) / a ** 2 + Z ** 2 / b ** 2, 0 * lat + 1)


@contract('P14', 'to_sphere', functions=['spatial.to_sphere'], params=product(kind=['scalar', 'array']))
def to_sphere(w, kind):
    """spherical coordinates represent the point; ranges; input kept"""
    np = w.np
    B = dict(lo=-1e7, hi=1e7, special=(0.0, 1.0, -1.0, 6.4e6, -6.4e6))
    x, y, z = vec(w, kind, 'x', **B), vec(w, kind, 'y', **B), vec(w, kind, 'z', **B)
    w.assume(x ** 2 + y ** 2 > 0)
    snap = w.snapshot(x, y, z) if kind == 'array' else []
    lon, lat, r = w.get('pyTMD.spatial.to_sphere')(x, y, z)
    la, ph = lon * np.pi / 180, lat * np.pi / 180
    w.eq('radius', r, np.sqrt(x ** 2 + y ** 2 + z ** 2))
    w.eq('x', r * np.cos(ph) * np.cos(la), x, scale=1e7)
    w.eq('y', r * np.cos(ph) * np.sin(la), y, scale=1e7)
    w.eq('z', r * np.sin(ph), z, scale=1e7)
    w.true('longitude range', (lon >= 0) & (lon <= 360))
    w.true('latitude range', (lat >= -90) & (lat <= 90))
    w.unchanged('inputs', snap)


@contract('P15', 'to_ENU', functions=['spatial.to_ENU', 'spatial.to_cartesian'], params=product(kind=['scalar', 'array']))
def to_ENU(w, kind):
    """components of r - r0 along east, north and up at the reference"""
    np = w.np
    a, f = ell(w)
    lon0, lat0, h0 = w.real('lon0', **LON), w.real('lat0', **LAT), w.real('h0', lo=-1000, hi=10000)
    B = dict(lo=-1e7, hi=1e7)
    x, y, z = vec(w, kind, 'x', **B), vec(w, kind, 'y', **B), vec(w, kind, 'z', **B)
    snap = w.snapshot(x, y, z) if kind == 'array' else []
    E, N, U = w.get('pyTMD.spatial.to_ENU')(x, y, z, lon0=lon0, lat0=lat0, h0=h0, a_axis=a, flat=f)
    X0, Y0, Z0 = w.get('pyTMD.spatial.to_cartesian')(lon0, lat0, h=h0, a_axis=a, flat=f)
    l, p = lon0 * np.pi / 180, lat0 * np.pi / 180
    dx, dy, dz = x - X0, y - Y0, z - Z0
    w.eq('east', E, dy * np.cos(l) - dx * np.sin(l), scale=1e7)
    w.eq('north', N, dz * np.cos(p) - (dx * np.cos(l) + dy * np.sin(l)) * np.sin(p), scale=1e7)
    w.eq('up', U, dz * np.sin(p) + (dx * np.cos(l) + dy * np.sin(l)) * np.cos(p), scale=1e7)
    w.unchanged('inputs', snap)


@contract('P15', 'ENU_round_trip', functions=['spatial.to_ENU', 'spatial.from_ENU'], params=product(kind=['scalar', 'array']))
def ENU_round_trip(w, kind):
    """from_ENU inverts to_ENU and lengths are kept"""
    a, f = ell(w)
    lon0, lat0, h0 = w.real('lon0', **LON), w.real('lat0', **LAT), w.real('h0', lo=-1000, hi=10000)
    stub_cartesian(w)
    B = dict(lo=-1e7, hi=1e7)
    x, y, z = vec(w, kind, 'x', **B), vec(w, kind, 'y', **B), vec(w, kind, 'z', **B)
    kw = dict(lon0=lon0, lat0=lat0, h0=h0, a_axis=a, flat=f)
    E, N, U = w.get('pyTMD.spatial.to_ENU')(x, y, z, **kw)
    X0, Y0, Z0 = w.get('pyTMD.spatial.to_cartesian')(lon0, lat0, h=h0, a_axis=a, flat=f)
    w.eq('isometry', E ** 2 + N ** 2 + U ** 2, (x - X0) ** 2 + (y - Y0) ** 2 + (z - Z0) ** 2)
    x1, y1, z1 = w.get('pyTMD.spatial.from_ENU')(E, N, U, **kw)
    w.eq('x', x1, x, scale=1e7)
    w.eq('y', y1, y, scale=1e7)
    w.eq('z', z1, z, scale=1e7)
    # and the other way round
    e, n, u = vec(w, kind, 'e', **B), vec(w, kind, 'n_', **B), vec(w, kind, 'u', **B)
    snap = w.snapshot(e, n, u) if kind == 'array' else []
    x2, y2, z2 = w.get('pyTMD.spatial.from_ENU')(e, n, u, **kw)
    e2, n2, u2 = w.get('pyTMD.spatial.to_ENU')(x2, y2, z2, **kw)
    w.eq('east', e2, e, scale=1e7)
    w.eq('north', n2, n, scale=1e7)
    w.eq('up', u2, u, scale=1e7)
    w.unchanged('inputs', snap)


def stub_cartesian(w):
    def f(lon, lat, h=None, a_axis=None, flat=None):
        return tuple(w.uf('cartesian/' + c, lon, lat, h, a_axis, flat) for c in 'xyz')
    w.stub('pyTMD.spatial.to_cartesian', f)


@contract('P15', 'to_horizontal', functions=['spatial.to_horizontal'], params=product(kind=['scalar', 'array']))
def to_horizontal(w, kind):
    """elevation, azimuth (from north through east) and distance represent
    the vector"""
    np = w.np
    B = dict(lo=-1e7, hi=1e7, special=(0.0, 1.0, -1.0))
    E, N, U = vec(w, kind, 'E', **B), vec(w, kind, 'N', **B), vec(w, kind, 'U', **B)
    w.assume(E ** 2 + N ** 2 > 0)
    alt, az, D = w.get('pyTMD.spatial.to_horizontal')(E, N, U)
    al, ph = alt * np.pi / 180, az * np.pi / 180
    w.eq('distance', D, np.sqrt(E ** 2 + N ** 2 + U ** 2))
    w.eq('up', D * np.sin(al), U, scale=1e7)
    w.eq('east', D * np.cos(al) * np.sin(ph), E, scale=1e7)
    w.eq('north', D * np.cos(al) * np.cos(ph), N, scale=1e7)
    w.true('azimuth range', (az >= 0) & (az <= 360))
    w.true('elevation range', (alt >= -90) & (alt <= 90))


@contract('P15', 'to_zenith', functions=['spatial.to_zenith'], params=product(kind=['scalar', 'array']))
def to_zenith(w, kind):
    """angle between the local vertical and the direction of the point"""
    np = w.np
    a, f = ell(w)
    lon0, lat0, h0 = w.real('lon0', **LON), w.real('lat0', **LAT), w.real('h0', lo=-1000, hi=10000)
    B = dict(lo=-1e7, hi=1e7)
    x, y, z = vec(w, kind, 'x', **B), vec(w, kind, 'y', **B), vec(w, kind, 'z', **B)

    def enu(x, y, z, **kw):
        args = [x, y, z] + [kw[k] for k in ('lon0', 'lat0', 'h0', 'a_axis', 'flat')]
        return tuple(w.uf('enu/' + c, *args) for c in 'enu')
    w.stub('pyTMD.spatial.to_ENU', enu)
    kw = dict(lon0=lon0, lat0=lat0, h0=h0, a_axis=a, flat=f)
    E, N, U = w.get('pyTMD.spatial.to_ENU')(x, y, z, **kw)
    w.assume(E ** 2 + N ** 2 + U ** 2 > 0)
    zen = w.get('pyTMD.spatial.to_zenith')(x, y, z, **kw)
    D = np.sqrt(E ** 2 + N ** 2 + U ** 2)
    w.eq('cosine', D * np.cos(zen * np.pi / 180), U, scale=1e7)
    w.true('range', (zen >= 0) & (zen <= 180))


@contract('P16', 'dms', functions=['spatial.to_dms', 'spatial.from_dms'], params=product(kind=['scalar', 'array'], sign=['+', '-']))
def dms(w, kind, sign):
    """degrees, minutes and seconds: ranges and round trip"""
    if sign == '+':
        d = vec(w, kind, 'd', lo=0, hi=1000, special=(0.0, 0.5, 1.0, 59.0, 180.0))
    else:
        d = vec(w, kind, 'd', lo=-1000, hi=-1, special=(-1.0, -59.0, -180.0, -1.5))
    D, M, S = w.get('pyTMD.spatial.to_dms')(d)
    w.true('minutes', (M >= 0) & (M < 60))
    w.true('seconds', (S >= 0) & (S < 60))
    w.eq('whole minutes', w.floor(M), M)
    w.eq('whole degrees', w.floor(D), D)
    w.eq('round trip', w.get('pyTMD.spatial.from_dms')(D, M, S), d)


@contract('P16', 'dms_small', functions=['spatial.to_dms', 'spatial.from_dms'], params=product(kind=['scalar', 'array']), bounded=True, trials=60)
def dms_small(w, kind):
    """round trip for every angle, including those between -1 and 1 degree,
    whose sign is carried by a (floating point) zero"""
    d = vec(w, kind, 'd', lo=-2, hi=2, special=(0.0, 0.5, -0.5, -1.0, 1.0, -0.01))
    D, M, S = w.get('pyTMD.spatial.to_dms')(d)
    w.eq('round trip', w.get('pyTMD.spatial.from_dms')(D, M, S), d)


@contract('P16', 'from_dms', functions=['spatial.from_dms'], params=product(kind=['scalar', 'array'], sign=['+', '-']))
def from_dms(w, kind, sign):
    """(|degree| + minute/60 + second/3600) with the sign of degree"""
    D = vec(w, kind, 'D', lo=0 if sign == '+' else -360, hi=360 if sign == '+' else -1)
    M, S = vec(w, kind, 'M', lo=0, hi=60), vec(w, kind, 'S', lo=0, hi=60)
    r = w.get('pyTMD.spatial.from_dms')(D, M, S)
    s = M / 60 + S / 3600
    w.eq('decimal degrees', r, D + s if sign == '+' else D - s)


@contract('P16', 'wrap_longitudes', functions=['spatial.wrap_longitudes'], params=product(kind=['scalar', 'array']))
def wrap_longitudes(w, kind):
    """same meridian, within [-180, 180]"""
    np = w.np
    lon = vec(w, kind, 'lon', lo=-2000, hi=2000, special=(-180.0, 180.0, 0.0, 360.0, 540.0))
    r = w.get('pyTMD.spatial.wrap_longitudes')(lon)
    w.true('range', (r >= -180) & (r <= 180))
    w.eq('sine', np.sin(r * np.pi / 180), np.sin(lon * np.pi / 180))
    w.eq('cosine', np.cos(r * np.pi / 180), np.cos(lon * np.pi / 180))


@contract('P17', 'compute_delta_h', functions=['spatial.compute_delta_h'], params=product(kind=['scalar', 'array']))
def compute_delta_h(w, kind):
    """height difference between two ellipsoids: -(da cos^2 + db sin^2);
    a1-a2 at the equator, b1-b2 at the poles"""
    np = w.np
    a1, f1, a2, f2 = w.real('a1', lo=6.3e6, hi=6.4e6), w.real('f1', lo=0.001, hi=0.01), w.real('a2', lo=6.3e6, hi=6.4e6), w.real('f2', lo=0.001, hi=0.01)
    lat = vec(w, kind, 'lat', lo=-90, hi=90, special=(-90.0, 90.0, 0.0))
    F = w.get('pyTMD.spatial.compute_delta_h')
    dh = F(lat, a1, f1, a2, f2)
    ph = lat * np.pi / 180
    da, db = a2 - a1, a2 * (1 - f2) - a1 * (1 - f1)
    w.eq('height difference', dh, -(da * np.cos(ph) ** 2 + db * np.sin(ph) ** 2), scale=1e3)
    w.eq('antisymmetry', F(lat, a2, f2, a1, f1), -dh, scale=1e3)
    w.eq('even in latitude', F(-lat, a1, f1, a2, f2), dh, scale=1e3)


# published parameters: semi-major axis, 1/flattening, GM, rotation rate
GM0, OM0 = '398600441800000', '0.00007292115'
ELLIPSOIDS = {
    'CLK66': ('6378206.4', '294.9786982', GM0, OM0), 'NAD27': ('6378206.4', '294.9786982', GM0, OM0),
    'GRS80': ('6378137', '298.257222101', '398600500000000', OM0), 'NAD83': ('6378137', '298.257222101', '398600500000000', OM0),
    'GRS67': ('6378160', '298.247167427', '398603000000000', '0.000072921151467'),
    'WGS72': ('6378135', '298.26', GM0, OM0), 'WGS84': ('6378137', '298.257223563', GM0, OM0),
    'ATS77': ('6378135', '298.257', GM0, OM0), 'KRASS': ('6378245', '298.3', GM0, OM0),
    'INTER': ('6378388', '297', GM0, OM0), 'MAIRY': ('6377340.189', '299.3249646', GM0, OM0),
    'HGH80': ('6378273', '298.279411123064', GM0, OM0), 'TOPEX': ('6378136.3', '298.257', '398600441500000', OM0),
    'EGM96': ('6378136.3', '298.256415099', '398600441500000', OM0), 'IERS': ('6378136.6', '298.25642', GM0, OM0)}


@contract('P17', 'datum_constants', functions=['crs.datum.__init__', 'crs.datum.__getitem__', 'crs.datum.__setitem__', 'crs.datum.__str__'], params=product(name=list(ELLIPSOIDS), units=['MKS', 'CGS', 'mks']), trials=1)
def datum_constants(w, name, units):
    """every named ellipsoid has its published parameters, in both systems of
    units; names are not case sensitive"""
    D = w.get('pyTMD.crs.datum')
    a, f, gm, om = ELLIPSOIDS[name]
    for n in (name, name.lower()):
        d = D(ellipsoid=n, units=units)
        k, k3 = (100, 1000000) if units == 'CGS' else (1, 1)
        w.eq('semi-major axis', d.a_axis, w.const(a) * k, tol=1e-12)
        w.eq('flattening', d.flat, 1 / w.const(f), tol=1e-12)
        w.eq('GM', d.GM, w.const(gm) * k3, tol=1e-12)
        w.eq('rotation rate', d.omega, w.const(om), tol=1e-12, scale=0)
        w.eq('gravitational constant', d.G, w.const('0.000000000066743') * (1000 if k == 100 else 1), tol=1e-12, scale=0)
        w.eq('standard gravity', d.gamma, w.const('9.80665') * k, tol=1e-12)
        w.true('text', str(d) == 'pyTMD.datum\n    name: %s\n    units: %s' % (d.name, d.units))
        w.true('items', d['a_axis'] is d.a_axis)
        d['a_axis'] = 'another'
        w.true('items', d.a_axis == 'another')


@contract('P17', 'datum_invalid', functions=['crs.datum.__init__'], trials=1)
def datum_invalid(w):
    """unknown ellipsoids and units are rejected"""
    D = w.get('pyTMD.crs.datum')
    w.raises('ellipsoid', AssertionError, lambda: D(ellipsoid='GRS'))
    w.raises('units', AssertionError, lambda: D(units='SI'))


@contract('P17', 'datum_derived', functions=['crs.datum.' + n for n in 'rad_e b_axis ratio rad_p ecc ecc1 ecc2 m f2 f4 q q0 J2 C20 gamma_a gamma_b gamma_0 gamma_h dk U0 area volume rho_e'.split()],
          params=product(units=['MKS', 'CGS']))
def datum_derived(w, units):
    """geometry and gravity derived from (a, f, GM, omega) for any ellipsoid"""
    np = w.np
    a, f = ell(w)
    GM, om = w.real('GM', lo=3.9e14, hi=4e14), w.real('omega', lo=7e-5, hi=7.5e-5)
    th, h = w.real('theta', lo=0, hi=3.1415), w.real('height', lo=-1e4, hi=1e4)
    d = w.get('pyTMD.crs.datum')(a_axis=a, flat=f, GM=GM, omega=om, units=units)
    if units == 'CGS':
        a, GM = a * 100, GM * 1000000
    G = w.const('0.000000000066743') * (1000 if units == 'CGS' else 1)
    eq = lambda l, x, y: w.eq(l, x, y, tol=1e-9, scale=0)
    b = a * (1 - f)
    E2 = a ** 2 - b ** 2
    eq('semi-minor axis', d.b_axis, b)
    eq('ratio of the axes', d.ratio, b / a)
    eq('polar radius of curvature', d.rad_p * b, a ** 2)
    eq('linear eccentricity', d.ecc ** 2, E2)
    eq('first eccentricity', d.ecc1 ** 2 * a ** 2, E2)
    eq('second eccentricity', d.ecc2 ** 2 * b ** 2, E2)
    w.true('eccentricities are positive', (d.ecc > 0) & (d.ecc1 > 0) & (d.ecc2 > 0))
    eq('volumetric radius', d.rad_e ** 3, a ** 2 * b)
    eq('volume', d.volume, 4 * np.pi * a ** 2 * b / 3)
    m = om ** 2 * a ** 2 * b / GM
    eq('centrifugal ratio', d.m, m)
    eq('mean density', d.rho_e, GM / (G * d.volume))
    e2 = np.sqrt(E2) / b
    e1 = np.sqrt(E2) / a
    at = np.arctan(e2)
    q = ((1 + 3 / e2 ** 2) * at - 3 / e2) / 2
    w.eq('q', d.q, q, tol=1e-6, scale=0)
    w.eq('q0', d.q0, 3 * (1 + 1 / e2 ** 2) * (1 - at / e2) - 1, tol=1e-6, scale=0)
    J2 = e1 ** 2 / 3 * (1 - 2 * m * e2 / (15 * q))
    w.eq('J2', d.J2, J2, tol=1e-4, scale=0)
    w.eq('C20', d.C20 * np.sqrt(w.const(5)), -J2, tol=1e-4, scale=0)
    ga = GM / (a * b) * (1 - 3 * m / 2 - 3 * e2 ** 2 * m / 14)
    gb = GM / a ** 2 * (1 + m + 3 * e2 ** 2 * m / 7)
    eq('gravity at the equator', d.gamma_a, ga)
    eq('gravity at the poles', d.gamma_b, gb)
    f2 = -f + 5 * m / 2 + f ** 2 / 2 - 26 * f * m / 7 + 15 * m ** 2 / 4
    f4 = -f ** 2 / 2 + 5 * f * m / 2
    g0 = ga * (1 + f2 * np.cos(th) ** 2 + f4 * np.cos(th) ** 4)
    eq('gravity on the ellipsoid', d.gamma_0(th), g0)
    eq('gravity above the ellipsoid', d.gamma_h(th, h), g0 * (1 - 2 * h / a * (1 + f + m - 2 * f * np.cos(th) ** 2) + 3 * h ** 2 / a ** 2))
    w.eq('Somigliana constant', d.dk, b * gb / (a * ga) - 1, tol=1e-6, scale=0)
    eq('normal potential', d.U0, GM / np.sqrt(E2) * at + om ** 2 * a ** 2 / 3)
    eq('area', d.area, 2 * np.pi * a ** 2 * (1 + (1 - e1 ** 2) / (2 * e1) * np.log((1 + e1) / (1 - e1))))


@contract('P17', 'convert_special', functions=['spatial.convert_ellipsoid'], params=product(lat=['0', '90', '-90']))
def convert_special(w, lat):
    """on the equator and at the poles the latitude is kept and the height
    changes by the difference of the axes"""
    a1, f1, a2, f2 = w.real('a1', lo=6.3e6, hi=6.4e6), w.real('f1', lo=0.001, hi=0.01), w.real('a2', lo=6.3e6, hi=6.4e6), w.real('f2', lo=0.001, hi=0.01)
    h = w.array('h', (w.dim('n'),), lo=-5000, hi=10000)
    phi = 0 * h + w.const(lat)
    p2, h2 = w.get('pyTMD.spatial.convert_ellipsoid')(phi, h, a1, f1, a2, f2)
    w.eq('latitude', p2, 0 * h + w.const(lat))
    w.eq('height', h2, h + a1 - a2 if lat == '0' else h + a1 * (1 - f1) - a2 * (1 - f2), scale=1e5)


@contract('P17', 'convert_ellipsoid', functions=['spatial.convert_ellipsoid'], bounded=True, trials=60)
def convert_ellipsoid(w):
    """latitude and height on the second ellipsoid describe the same point
    (Newton iteration: 1e-6 m on random points of realistic ellipsoids)"""
    np = w.np
    a1, f1, a2, f2 = w.real('a1', lo=6.377e6, hi=6.379e6), w.real('f1', lo=0.0033, hi=0.0034), w.real('a2', lo=6.377e6, hi=6.379e6), w.real('f2', lo=0.0033, hi=0.0034)
    h = w.array('h', (w.dim('n'),), lo=-5000, hi=10000)
    phi = w.array('phi', (w.dim('n'),), lo=-90, hi=90, special=(0.0, 45.0, -45.0, 90.0, -90.0, 1e-9, 89.999999, -89.9999, 45.0001))
    snap = w.snapshot(phi, h)
    p2, h2 = w.get('pyTMD.spatial.convert_ellipsoid')(phi, h, a1, f1, a2, f2)
    T = w.get('pyTMD.spatial.to_cartesian')
    x1, _, z1 = T(0 * phi, phi, h=h, a_axis=a1, flat=f1)
    x2, _, z2 = T(0 * p2, p2, h=h2, a_axis=a2, flat=f2)
    w.eq('distance from the axis', x2, x1, scale=1.0, tol=1e-12 * 6.4e6 / 6.4)
    w.eq('distance from the equator', z2, z1, scale=1.0, tol=1e-12 * 6.4e6 / 6.4)
    w.unchanged('inputs', snap)


@contract('P17', 'scale_factors', functions=['spatial.scale_factors'], params=product(kind=['scalar', 'array'], metric=['distance', 'area', 'AREA']))
def scale_factors(w, kind, metric):
    """inverse of the polar stereographic scale at the latitude (or of its
    square), for any ellipsoid and latitude of true scale"""
    np = w.np
    f = w.real('f', lo=0.001, hi=0.01)
    lat, ref = vec(w, kind, 'lat', lo=-89, hi=89, special=(0.0, 70.0, -71.0)), w.real('ref', lo=-89, hi=89, special=(70.0, -71.0))
    s = w.get('pyTMD.spatial.scale_factors')(lat, flat=f, reference_latitude=ref, metric=metric)
    e2 = f * (2 - f)
    e = np.sqrt(e2)

    def mt(x):
        t = abs(x) * np.pi / 180
        return np.cos(t) / np.sqrt(1 - e2 * np.sin(t) ** 2), \
            np.tan(np.pi / 4 - t / 2) / ((1 - e * np.sin(t)) / (1 + e * np.sin(t))) ** (e / 2)
    m, t = mt(lat)
    mr, tr = mt(ref)
    k = m * tr / (mr * t)
    w.eq('scale', s, k if metric == 'distance' else k ** 2)


@contract('P17', 'scale_pole', functions=['spatial.scale_factors'], params=product(metric=['distance', 'area']), bounded=True, trials=30)
def scale_pole(w, metric):
    """continuous at the poles; one at the latitude of true scale; PROJ's
    meridional scale elsewhere"""
    import numpy as np
    import pyproj
    f = w.real('f', lo=0.001, hi=0.01)
    ref = w.real('ref', lo=50, hi=85)
    lat = w.array('lat', (w.dim('n'),), lo=45, hi=89.9)
    S = w.get('pyTMD.spatial.scale_factors')
    kw = dict(flat=f, reference_latitude=ref, metric=metric)
    w.eq('true scale', S(np.array([ref, -ref]), **kw), np.ones(2))
    w.eq('poles', S(np.array([90.0, -90.0]), **kw), S(np.array([89.99999, -89.99999]), **kw), tol=1e-6)
    p = pyproj.Proj(proj='stere', lat_0=90, lat_ts=ref, a=6378137.0, f=f)
    k = p.get_factors(np.zeros(len(lat)), lat).meridional_scale
    w.eq('PROJ', S(lat, **kw), 1 / k if metric == 'distance' else 1 / k ** 2, tol=1e-5)


@contract('P14', 'to_geodetic', functions=['spatial.to_geodetic'], params=product(method=['bowring', 'moritz', 'zhu', 'Bowring'], kind=['scalar', 'array']), bounded=True, trials=40)
def to_geodetic(w, method, kind):
    """inverse of to_cartesian, including the poles and arrays mixing polar,
    equatorial and other points (1e-9 degrees, 1e-3 m; heights -5 to 1000 km)"""
    import numpy as np
    a, f = w.real('a', lo=6.3e6, hi=6.4e6), w.real('f', lo=0.002, hi=0.006, special=(1 / 298.257223563,))
    lon, lat = vec(w, kind, 'lon', **LON), vec(w, kind, 'lat', lo=-90, hi=90, special=(-90.0, 90.0, 0.0, 45.0, 89.9999, -1e-6))
    h = vec(w, kind, 'h', lo=-5000, hi=1e6, special=(0.0, 100.0))
    x, y, z = w.get('pyTMD.spatial.to_cartesian')(lon, lat, h=h, a_axis=a, flat=f)
    pole = np.abs(lat) == 90.0
    x, y = np.where(pole, 0.0, x), np.where(pole, 0.0, y)
    if kind == 'scalar':
        x, y = float(x), float(y)
    snap = w.snapshot(x, y, z) if kind == 'array' else []
    lo, la, hh = w.get('pyTMD.spatial.to_geodetic')(x, y, z, a_axis=a, flat=f, method=method)
    w.eq('latitude', la, lat, tol=1e-9)
    w.eq('height', hh, h, scale=1.0, tol=1e-3)
    w.eq('longitude (cosine)', np.cos(np.radians(lo)), np.cos(np.radians(lon)), where=~pole)
    w.eq('longitude (sine)', np.sin(np.radians(lo)), np.sin(np.radians(lon)), where=~pole)
    w.unchanged('inputs', snap)
