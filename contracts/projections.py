"""Coordinate reference systems: pyTMD.crs"""
import types

from pyvc.contract import contract, product

ASSUME = ('pyproj: CRS parses the names of systems, Transformer.transform is a function of the two systems, of the order of the axes and of the direction, and INVERSE undoes FORWARD',)
POLAR = dict(datum='WGS84', lat_0=-90, lat_ts=-71, lon_0=-70, proj='stere', type='crs', units='km', x_0=0, y_0=0)
ARCTIC = dict(R=6399938.5716113, lat_0=90, lon_0=270, proj='aeqd', type='crs', units='km', x_0=0, y_0=0)
# the systems by the ways of writing them
SYSTEMS = {'code': 3031, 'digits': '3413', 'name': 'EPSG:3976', 'polar': POLAR, 'arctic': ARCTIC, 'proj4': '+proj=stere +lat_0=-90 +lat_ts=-71 +lon_0=-70 +datum=WGS84 +units=km +no_defs +type=crs',
           'geographic': 'EPSG:4326', 'geographic code': 4326, 'mercator': '3857', 'object': 3031, 'wkt': 3413}


def system(kind):
    import pyproj
    v = SYSTEMS[kind]
    if kind == 'object':
        return pyproj.CRS.from_epsg(v)
    if kind == 'wkt':
        return pyproj.CRS.from_epsg(v).to_wkt()
    return dict(v) if isinstance(v, dict) else v


def reference(v):
    """the system as pyproj makes it"""
    import pyproj
    if isinstance(v, int) or isinstance(v, str) and v.isdigit():
        return pyproj.CRS.from_epsg(int(v))
    return pyproj.CRS.from_user_input(v)


def stub_pyproj(w):
    import pyproj
    made = []

    def name(c):
        return pyproj.CRS.from_user_input(c).to_wkt()

    class Transformer:
        @staticmethod
        def from_crs(a, b, always_xy=False, **kw):
            class T:
                def transform(self, x, y, direction='FORWARD', **kw):
                    back = str(getattr(direction, 'value', direction)).upper() == 'INVERSE'
                    s, t = (name(b), name(a)) if back else (name(a), name(b))
                    for (p, q), (r, k), o in made:
                        # the inverse of a transformation undoes it
                        if o == (t, s, always_xy) and r is x and k is y:
                            return p, q
                    out = tuple(w.uf('%s/%s>%s/%s' % (n, s, t, always_xy), x, y) for n in 'xy')
                    made.append(((x, y), out, (s, t, always_xy)))
                    return out
            return T()
    if w.symbolic:
        w.stub('pyTMD.crs.pyproj', types.SimpleNamespace(CRS=pyproj.CRS, Transformer=Transformer, exceptions=pyproj.exceptions, enums=pyproj.enums))

    def oracle(a, b, x, y):
        """coordinates in b of points given in a, longitude or easting first"""
        if w.symbolic:
            return tuple(w.uf('%s/%s>%s/%s' % (n, name(a), name(b), True), x, y) for n in 'xy')
        return pyproj.Transformer.from_crs(a, b, always_xy=True).transform(x, y)
    return oracle


def points(w, geographic, shape, system=None):
    if geographic:
        south = not (isinstance(system, dict) and system.get('lat_0') == 90)
        lat = dict(lo=-85, hi=-40) if south else dict(lo=40, hi=85)
        return w.array('x', shape, lo=-180, hi=180), w.array('y', shape, **lat)
    return w.array('x', shape, lo=-2500, hi=2500) if isinstance(system, dict) or isinstance(system, str) and 'km' in system else w.array('x', shape, lo=-2.5e6, hi=2.5e6), \
        w.array('y', shape, lo=-2500, hi=2500) if isinstance(system, dict) or isinstance(system, str) and 'km' in system else w.array('y', shape, lo=-2.5e6, hi=2.5e6)


@contract('P27', 'conversion of coordinates', functions=['crs.crs.' + n for n in ('convert', 'get', 'transform', 'from_input', 'direction', '__init__')],
          params=product(kind=sorted(SYSTEMS), way=['F', 'forwards', 'B', 'b'], epsg=['default', 4326, 'EPSG:4326', '4269', 4269]), trials=3, tol=1e-7, assumes=ASSUME)
def conversion(w, kind, way, epsg):
    """convert takes points from the system EPSG to the system of the model (F) or back (B),
    longitude or easting first, whatever the way the systems are written"""
    n = w.dim('n')
    oracle = stub_pyproj(w)
    v = system(kind)
    a, b = reference(4326 if epsg == 'default' else epsg), reference(v)
    if way[0].upper() == 'B':
        a, b = b, a
    x, y = points(w, a.is_geographic, (n,), v)
    snap = w.snapshot(x, y)
    kw = {} if epsg == 'default' else dict(EPSG=epsg)
    c = w.get('pyTMD.crs.crs')()
    got = c.convert(x, y, v, way, **kw)
    w.true('two coordinates', len(got) == 2)
    for l, g, o in zip('xy', got, oracle(a, b, x, y)):
        w.shape_eq(l, g, (n,))
        w.eq(l, g, o)
    w.unchanged('points', snap)
    w.true('system', c.crs == reference(v) and c.is_geographic == reference(v).is_geographic)
    # the same object goes to another system, from another one, in the other direction
    other = {'polar': 'arctic', 'arctic': 'polar'}.get(kind, 'mercator' if kind != 'mercator' else 'polar')
    u, second = system(other), 'F' if way[0].upper() == 'B' else 'B'
    for e, (f, t) in (('EPSG:4326', (reference(4326), reference(u))), (3031, (reference(3031), reference(u)))):
        f, t = (f, t) if second == 'F' else (t, f)
        p, q = points(w, f.is_geographic, (n,), u) if not w.symbolic else (x, y)
        for l, g, o in zip('xy', c.convert(p, q, system(other), second, EPSG=e), oracle(f, t, p, q)):
            w.eq('%s: another system of the same object' % l, g, o)
    w.true('another system', c.crs == reference(u) and c.is_geographic == reference(u).is_geographic)
    # back from where it was taken
    back = w.get('pyTMD.crs.crs')().convert(got[0], got[1], v, 'F' if way[0].upper() == 'B' else 'B', **kw)
    for l, g, o in zip('xy', back, (x, y)):
        if w.symbolic:
            w.eq('%s: there and back' % l, g, o)
        elif l == 'y' or not a.is_geographic:
            w.eq('%s: there and back' % l, g, o, tol=1e-6, scale=1e3)
        else:
            w.true('x: there and back', bool(w.np.all(w.np.abs((g - o + 180) % 360 - 180) < 1e-6)))


@contract('P27', 'directions of conversions', functions=['crs.crs.transform', 'crs.crs.direction', 'crs.crs.get', 'crs.crs.__getitem__', 'crs.crs.__setitem__'],
          params=product(kind=['code', 'polar', 'geographic'], way=[None, 'F', 'B', 'given', 'both']), trials=3, tol=1e-7, assumes=ASSUME)
def directions(w, kind, way):
    """transform goes forwards unless told, and an explicit direction has the last word"""
    import pyproj
    n = w.dim('n')
    oracle = stub_pyproj(w)
    v = system(kind)
    c = w.get('pyTMD.crs.crs')()
    w.true('get returns the object', c.get(v) is c)
    w.true('name', c.name == reference(v).name)
    kw = {}
    D = pyproj.enums.TransformDirection
    if way in ('F', 'B'):
        c['_direction'] = way
    elif way == 'given':
        kw['direction'] = D.INVERSE
    elif way == 'both':
        c['_direction'] = 'B'
        kw['direction'] = D.FORWARD
    back = way in ('B', 'given')
    w.true('direction', c['direction'] == (D.INVERSE if way in ('B', 'both') else D.FORWARD))
    a, b = reference(4326), reference(v)
    if back:
        a, b = b, a
    x, y = points(w, a.is_geographic, (n,), v)
    for l, g, o in zip('xy', c.transform(x, y, **kw), oracle(a, b, x, y)):
        w.eq(l, g, o)


@contract('P27', 'systems that are none', functions=['crs.crs.get', 'crs.crs.from_input', 'crs.crs.convert'] + ['scripts.%s.get_projection' % s for s in
          ('compute_tidal_elevations', 'compute_tidal_currents', 'compute_LPET_elevations', 'compute_LPT_displacements', 'compute_OPT_displacements', 'compute_SET_displacements')],
          params=product(bad=['no such system', '999999', 999999, '+proj=none']), trials=1, assumes=ASSUME)
def unknown(w, bad):
    """a name that is no system is refused with pyproj's error, by the programs too unless
    the file or the option gives a system"""
    import pyproj
    E = pyproj.exceptions.CRSError
    C = w.get('pyTMD.crs.crs')
    w.raises('from_input', E, lambda: C().from_input(bad))
    w.raises('get', E, lambda: C().get(bad))
    w.raises('convert', E, lambda: C().convert(w.np.zeros(1), w.np.zeros(1), bad, 'F'))
    w.raises('convert: EPSG', E, lambda: C().convert(w.np.zeros(1), w.np.zeros(1), 3031, 'F', EPSG=bad))
    for s in ('compute_tidal_elevations', 'compute_tidal_currents', 'compute_LPET_elevations', 'compute_LPT_displacements', 'compute_OPT_displacements', 'compute_SET_displacements'):
        f = w.get('scripts.%s.get_projection' % s)
        w.raises(s, E, lambda: f({}, bad))
        w.raises(s + ': file', E, lambda: f({'projection': bad}, bad))
        w.true(s + ': option', f({'projection': bad}, '3413') == reference('3413') and f({}, 3031) == reference(3031))
        w.true(s + ': file first', f({'projection': '3031'}, '3413') == reference('3031') and f({'projection': '3031'}, bad) == reference('3031'))


@contract('P27', 'projected coordinates', functions=['crs.crs.convert'], params=product(kind=['antarctic', 'CATS2008', 'arctic', 'geographic']), bounded=True, trials=40, tol=1e-8)
def formulas(w, kind):
    """coordinates of the polar systems by the formulas of the projections"""
    np = w.np
    n = w.rng.randint(1, 6)
    lon = w.array('lon', (n,), lo=-180, hi=360)
    C = w.get('pyTMD.crs.crs')
    a, f = 6378137.0, 1 / 298.257223563
    e = np.sqrt(2 * f - f * f)
    rad = np.pi / 180
    if kind == 'geographic':
        lat = w.array('lat', (n,), lo=-90, hi=90)
        for way in 'FB':
            x, y = C().convert(lon, lat, 'EPSG:4326', way)
            w.eq('longitude', x, lon)
            w.eq('latitude', y, lat)
        return
    if kind == 'arctic':
        # azimuthal equidistant of a sphere
        lat = w.array('lat', (n,), lo=45, hi=89.5)
        x, y = C().convert(lon, lat, dict(ARCTIC), 'F')
        # latitudes are taken from one ellipsoid to the other by the coordinates of the datum
        r = np.hypot(x, y)
        w.eq('azimuth', np.stack([x, y]) / r, np.stack([np.sin((lon - 270) * rad), -np.cos((lon - 270) * rad)]), tol=1e-7)
        w.le('distance', np.abs(r - 6399.9385716113 * (90 - lat) * rad), 25.0)
    else:
        lat = w.array('lat', (n,), lo=-89.5, hi=-50)
        lon0, k = (0.0, 1.0) if kind == 'antarctic' else (-70.0, 1e-3)
        x, y = C().convert(lon, lat, 3031 if kind == 'antarctic' else dict(POLAR), 'F')

        def t(p):
            s = np.sin(p)
            return np.tan(np.pi / 4 - p / 2) / ((1 - e * s) / (1 + e * s)) ** (e / 2)
        p, c = -lat * rad, 71 * rad
        mc = np.cos(c) / np.sqrt(1 - e ** 2 * np.sin(c) ** 2)
        rho = a * mc * t(p) / t(c) * k
        w.eq('x', x, rho * np.sin((lon - lon0) * rad), tol=1e-8)
        w.eq('y', y, rho * np.cos((lon - lon0) * rad), tol=1e-8)
    P = 3031 if kind == 'antarctic' else dict(POLAR if kind == 'CATS2008' else ARCTIC)
    o, l = C().convert(x, y, P, 'B')
    w.eq('latitude of the point', l, lat, tol=1e-7)
    w.le('longitude of the point', np.abs((o - lon + 180) % 360 - 180), 1e-6)


@contract('P27', 'systems of the models', functions=['crs.crs.convert', 'crs.crs.is_geographic', 'crs.crs.__str__'], bounded=True, trials=3)
def database(w):
    """every model of the database has a system its points can be taken to and from"""
    np = w.np
    db = w.get('pyTMD.io.load_database')()
    C = w.get('pyTMD.crs.crs')
    for kind in db.keys():
        for name, m in db[kind].items():
            P = m.get('projection')
            if P is None:
                continue
            c = C()
            ref = reference(P)
            up = 1 if isinstance(P, dict) and P.get('lat_0', 1) > 0 or ref.is_geographic else -1
            lon, lat = w.array('lon', (4,), lo=-180, hi=180), up * w.array('lat', (4,), lo=50, hi=89)
            x, y = c.convert(lon, lat, P, 'F')
            w.true('geographic: %s' % name, c.is_geographic == ref.is_geographic)
            w.true('name of %s' % name, ref.name in str(c) and 'FORWARD' in str(c))
            o, l = C().convert(x, y, P, 'B')
            w.le('latitude: %s' % name, np.abs(l - lat), 1e-6)
            w.le('longitude: %s' % name, np.abs((o - lon + 180) % 360 - 180), 1e-5)
