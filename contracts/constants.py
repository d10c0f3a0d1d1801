"""Tidal constants at points: extract_constants, read_constants and
interpolate_constants of io.OTIS, io.ATLAS, io.GOT and io.FES"""
from pyvc.contract import contract, product

NAMES = ['m2', 'k1', 's2']
HERE = __file__
ASSUME = ('interpolate.bilinear, spline, regulargrid and extrapolate by contract (P18): functions of the nodes (those masked or not a number have no value) and of the position',
          'pyproj transformations as functions of their arguments')


# ------------------------------------------------------------ interpolation
def sample(w, x, y, z):
    """an arbitrary node of a grid: coordinates, missing, value"""
    np = w.np
    ny, nx = np.shape(z)
    j, i = w.integer('node/j', lo=0), w.integer('node/i', lo=0)
    w.assume(j < w.size(ny))
    w.assume(i < w.size(nx))
    d, m = w.data(z)[j, i], w.mask(z)[j, i]
    m = m | np.isnan(d)
    parts = [d.real, d.imag] if z.dtype.kind == 'c' else [d]
    m = w.T.canon(w.T.lift(m))
    return [x[i], y[j], w.size(nx), w.size(ny), w.T.b2i(m)] + [w.ite(m, 0, w.T.under(w.T.lift(v), w.T.not_(m))) for v in parts]


def interpolant(w, tag, x, y, z, p, q):
    """values and mask at the points"""
    s = sample(w, x, y, z)
    f = lambda n, **k: w.uf('%s/%s' % (n, tag), p, q, *s, opaque=True, **k)
    m = f('mask', kind='B')
    if z.dtype.kind == 'c':
        return f('re', lo=-1e9, hi=1e9) + 1j * f('im', lo=-1e9, hi=1e9), m
    return f('value', lo=1, hi=1e9), m


def stub_interpolation(w):
    if not w.symbolic:
        return
    np = w.np

    def check(z, dtype):
        if z.dtype.kind == 'c':
            w.true('complex values', dtype is not None and np.dtype(dtype).kind == 'c')

    def bilinear(x, y, z, p, q, fill_value=float('nan'), dtype=float):
        check(z, dtype)
        v, m = interpolant(w, 'bilinear', x, y, z, p, q)
        return np.ma.array(np.where(m, fill_value, v), mask=m, fill_value=fill_value)

    def spline(x, y, z, p, q, fill_value=None, dtype=float, reducer=np.ceil, kx=1, ky=1):
        check(z, dtype)
        w.true('any masked corner', reducer is np.ceil)
        v, m = interpolant(w, 'spline/%d/%d' % (kx, ky), x, y, z, p, q)
        return np.ma.array(v, mask=m, fill_value=fill_value)

    def regulargrid(x, y, z, p, q, fill_value=None, dtype=float, reducer=np.ceil, bounds_error=False, method='linear'):
        check(z, dtype)
        w.true('any masked corner', reducer is np.ceil)
        w.true('outside', bounds_error is False)
        v, m = interpolant(w, 'regular/' + method, x, y, z, p, q)
        return np.ma.array(v, mask=m, fill_value=fill_value)

    def extrapolate(x, y, z, p, q, fill_value=None, dtype=float, cutoff=float('inf'), is_geographic=True):
        check(z, dtype)
        # a selection of the points
        sel = lambda r: r
        if type(p).__name__ == 'Comp':
            C, sm = type(p), p.mask
            sel = lambda r: C(sm, r)
            p, q = p.full, q.full
        v, m = interpolant(w, 'extrapolate/%s/%s' % (cutoff, bool(is_geographic)), x, y, z, p, q)
        return sel(np.ma.array(v, mask=m))
    for f in (bilinear, spline, regulargrid, extrapolate):
        w.stub('pyTMD.interpolate.' + f.__name__, f)


def interpolated(w, method, extrap, x, y, z, p, q, cutoff=10.0, geographic=True):
    """contract values and masks of the field at the points"""
    np = w.np
    if w.symbolic:
        tag = {'bilinear': 'bilinear', 'spline': 'spline/1/1'}.get(method, 'regular/' + method)
        v, m = interpolant(w, tag, x, y, z, p, q)
        if extrap:
            v2, m2 = interpolant(w, 'extrapolate/%s/%s' % (cutoff, geographic), x, y, z, p, q)
            return v, m, v2, m2
        return v, m, None, None
    I = w.get
    d = np.ma.array(np.where(np.ma.getmaskarray(z) | np.isnan(z.data), 0, z.data), mask=np.ma.getmaskarray(z) | np.isnan(z.data))
    kw = dict(dtype=z.dtype)
    if method == 'bilinear':
        r = I('pyTMD.interpolate.bilinear')(x, y, d, p, q, **kw)
    elif method == 'spline':
        r = I('pyTMD.interpolate.spline')(x, y, d, p, q, kx=1, ky=1, **kw)
    else:
        r = I('pyTMD.interpolate.regulargrid')(x, y, d, p, q, method=method, **kw)
    v, m = r.data, np.ma.getmaskarray(r)
    if extrap:
        e = I('pyTMD.interpolate.extrapolate')(x, y, d, p, q, cutoff=cutoff, is_geographic=geographic, **kw)
        return v, m, e.data, np.ma.getmaskarray(e)
    return v, m, None, None


def wrapped(w, x, p, geographic=True):
    """longitudes of the points in the convention of the grid"""
    np = w.np
    if not geographic:
        return p
    p = np.where(p < x.min(), p + 360, p)
    return np.where(p > x.max(), p - 360, p)


def polar(w, label, a, ph, k, v, m, ranges=True):
    """column k of amplitudes and phases: a exp(-i ph) = v, mask m"""
    np = w.np
    A, P = w.data(a)[:, k], w.data(ph)[:, k] * np.pi / 180
    w.eq(label + ': mask of amplitude', w.mask(a)[:, k], m)
    w.eq(label + ': mask of phase', w.mask(ph)[:, k], m)
    if ranges:
        w.true(label + ': amplitude is not negative', (A >= 0) | m)
        w.true(label + ': phase range', ((w.data(ph)[:, k] >= 0) & (w.data(ph)[:, k] <= 360)) | m)
    w.eq(label + ': in phase', A * np.cos(P), v.real, where=~m)
    w.eq(label + ': quadrature', -A * np.sin(P), v.imag, where=~m)


def expected(w, method, extrap, x, y, fields, p, q, bathymetry=None, velocity=False, zero=(), scale=1, cutoff=10.0, geographic=True, domain=None):
    """constants at the points: values and masks of each field, depth and its mask"""
    np = w.np
    kw = dict(cutoff=cutoff, geographic=geographic)
    X, Y = domain or (x, y)
    outside = (p < X.min()) | (p > X.max()) | (q < Y.min()) | (q > Y.max())
    unit, D, Dm = 1, None, False | outside
    if bathymetry is not None:
        D, Dm, De, Dem = interpolated(w, method, extrap and velocity, x, y, bathymetry, p, q, **kw)
        if velocity:
            unit = D / 100
            if extrap:
                unit = np.where(Dm, De, D) / 100
        else:
            Dm = Dm
    out = []
    for z in fields:
        m = w.mask(z)
        if bathymetry is not None:
            m = m | w.mask(bathymetry)
        # nodes without values: those equal to zero also, as asked
        nodes = {k: np.ma.array(w.data(z), mask=m | (w.data(z) == 0) if k in zero else m) for k in ('inside', 'extrapolated')}
        v, m, _, _ = interpolated(w, method, False, x, y, nodes['inside'], p, q, **kw)
        if extrap:
            _, _, ve, me = interpolated(w, method, True, x, y, nodes['extrapolated'], p, q, **kw)
        if bathymetry is not None:
            m = m | Dm
        if extrap:
            v = np.where(m, ve, v)
            m = m & me
        out.append((scale * v / unit, m | outside))
    return out, D, Dm


# -------------------------------------------------------------------- grids
def model_grid(w, geographic=True, cmin=3):
    nx, ny = w.dim('nx', lo=cmin, hi=7), w.dim('ny', lo=cmin, hi=6)
    w.differ(nx, ny)
    if not w.symbolic and geographic and w.rng.random() < 0.6:
        np = w.np
        d = 360.0 / nx
        x = w.rng.choice([0.0, -180.0, d, d / 2, -180 + d / 2, 37.0]) + d * np.arange(nx)
        y = -75.0 + 150.0 / (ny - 1) * np.arange(ny)
        w._log('x', x)
        w._log('y', y)
        return nx, ny, x, y
    if not w.symbolic:
        np, r = w.np, w.rng
        s = r.uniform(0.5, 8.0)
        x = (r.uniform(-180, 180) if geographic else r.uniform(-2000, 2000)) + s * np.arange(nx)
        y = r.uniform(-80, 40) + s * np.arange(ny)
        w._log('x', x)
        w._log('y', y)
        return nx, ny, x, y
    lim = dict(lo=-180, hi=540) if geographic else {}
    x, y = w.axis('x', nx, **lim), w.axis('y', ny)
    if geographic:
        w.assume(x[0] <= 180)
        w.assume(x[-1] <= x[0] + 360)
        w.assume(x[1] - x[0] <= 60)
    return nx, ny, x, y


def points(w, n, x, y, geographic=True, proj=None):
    """anywhere, in any convention"""
    p, q = w.array('lon', (n,), lo=-180, hi=360), w.array('lat', (n,), lo=-90, hi=90)
    if not w.symbolic and not geographic:
        import pyTMD
        r, np = w.rng, w.np
        dx, dy = x[1] - x[0], y[1] - y[0]
        X = np.array([r.uniform(x[0] - dx / 3, x[-1] + dx / 3) for _ in range(n)])
        Y = np.array([r.uniform(y[0] - dy / 3, y[-1] + dy / 3) for _ in range(n)])
        p[:], q[:] = pyTMD.crs().get(proj).transform(X, Y, direction='INVERSE')
    elif not w.symbolic:
        r, np = w.rng, w.np
        for k in range(n):
            p[k] = r.choice([r.uniform(x[0], x[-1]), r.uniform(x[0] - (x[1] - x[0]), x[-1] + (x[1] - x[0])), r.uniform(-180, 360)])
            q[k] = np.clip(r.choice([r.uniform(y[0], y[-1]), r.uniform(y[0], y[-1]), r.uniform(-90, 90)]), -90, 90)
            if geographic:
                p[k] += r.choice([0, 0, 360, -360])
                if p[k] > 360:
                    p[k] -= 360
                if p[k] < -180:
                    p[k] += 360
    else:
        pass
    return p, q


def stub_extension(w, mod, x):
    """by contract (P19): a longer axis, whose columns are columns of the matrix"""
    if not w.symbolic:
        return
    nxe = w.dim('nxe', lo=4)
    X = w.axis('xe', nxe, lo=-900, hi=900)
    dx = x[1] - x[0]
    w.assume(dx > 0)
    w.assume(X[0] == x[0] - dx)
    w.assume(X[-1] == x[-1] + {'GOT': 2}.get(mod, 1) * dx)

    def _extend_array(a, s):
        w.eq('axis that is extended', a, x)
        w.eq('step of the extended axis', s, dx)
        return X.copy()
    w.stub('pyTMD.io.%s._extend_array' % mod, _extend_array)
    w.stub('pyTMD.io.%s._extend_matrix' % mod, lambda z: w.reindexed(z, nxe, 'column'))


def extended(w, mod, x, geographic=True):
    """grids around the globe are continued by their own columns (P19)"""
    np = w.np
    dx = x[1] - x[0]
    if geographic and np.isclose(x[-1] - x[0], 360 - dx):
        return w.get('pyTMD.io.%s._extend_array' % mod)(x.copy(), dx), w.get('pyTMD.io.%s._extend_matrix' % mod)
    return x, lambda z: z.copy()


# ------------------------------------------------------------- GOT and FES
METHODS = ['bilinear', 'spline', 'linear', 'nearest']
GF = [dict(fmt=f, method=m, extrap=e, via=v) for f in ('GOT-ascii', 'FES-netcdf') for m in METHODS for e in (False, True) for v in ('extract', 'read')]
GF += [dict(fmt=f, method='spline', extrap=False, via=v) for f in ('GOT-netcdf', 'FES-ascii') for v in ('extract', 'read')]


FORMER = dict(GOT='method extrapolate cutoff compressed scale', FES='type version method extrapolate cutoff compressed scale', ATLAS='type method extrapolate cutoff compressed scale', OTIS='type method extrapolate cutoff grid')


def named(former, mod, kw):
    """options by their former names"""
    if not former:
        return kw
    old = {n: 'GZIP' if n == 'compressed' else n.upper() for n in FORMER[mod].split()}
    return {old.get(k, k): v for k, v in kw.items()}


@contract('P20', 'phase and amplitude grids', functions=['io.%s.%s' % (m, f) for m in ('GOT', 'FES') for f in ('extract_constants', 'read_constants', 'interpolate_constants')], params=GF, tol=1e-7, trials=8, assumes=ASSUME)
def grids(w, fmt, method, extrap, via, former=False):
    """constants at a point are those of the grid of each constituent interpolated
    there (around the globe, in any convention of longitudes); extracted, or read and
    then interpolated; points outside of the grid or without valid nodes are masked"""
    stub_interpolation(w)
    np = w.np
    mod = fmt[:3]
    nx, ny, x, y = model_grid(w)
    stub_extension(w, mod, x)
    n = w.dim('n', lo=2, hi=6)
    p, q = points(w, n, x, y)
    Z = {k: w.masked('z' + k, (ny, nx), 'C') for k in NAMES[:2]}
    asked = []

    def reader(kind):
        def f(file, **k):
            asked.append((kind, k.get('compressed'), k.get('type'), k.get('version')))
            c = 'm2' if str(file).endswith('constants.py') else 'k1'
            out = (Z[c].copy(), x.copy(), y.copy())
            return out + (c,) if mod == 'GOT' else out
        return f
    for kind in ('ascii', 'netcdf'):
        w.patch('pyTMD.io.%s.read_%s_file' % (mod, kind), reader(kind))
    files = [HERE, HERE.replace('constants', 'interp')]
    version = {'FES-ascii': 'FES2004', 'FES-netcdf': 'FES2014'}.get(fmt)
    kw = dict(grid=fmt[4:]) if mod == 'GOT' else dict(type='u', version=version)
    opts = dict(method=method, extrapolate=extrap, scale=0.01)
    if extrap:
        opts['cutoff'] = 25.0
    snap = w.snapshot(p, q)
    M = 'pyTMD.io.%s.' % mod
    if via == 'extract':
        got = w.get(M + 'extract_constants')(p, q, files, **named(former, mod, dict(compressed=True, **kw, **opts)))
        if mod == 'GOT':
            w.true('constituents', list(got[2]) == ['m2', 'k1'])
    else:
        c = w.get(M + 'read_constants')(files, compressed=True, **kw)
        if mod == 'GOT':
            w.true('constituents', list(c.fields) == ['m2', 'k1'])
        for again in range(2):
            got = w.get(M + 'interpolate_constants')(p, q, c, **opts)
    w.true('files', len(asked) == 2 and all(a[0] == fmt[4:] and a[1] is True for a in asked))
    if mod == 'FES':
        w.true('type and version', all(a[2:] == ('u', version) for a in asked))
    a, ph = got[:2]
    w.shape_eq('amplitude', a, (n, 2))
    w.shape_eq('phase', ph, (n, 2))
    X, ext = extended(w, mod, x)
    P = wrapped(w, x if via == 'extract' else X, p)
    out, _, _ = expected(w, method, extrap, X, y, [ext(Z[k]) for k in ('m2', 'k1')], P, q, scale=w.const('0.01'), cutoff=opts.get('cutoff', 10.0))
    for k, (v, m) in enumerate(out):
        polar(w, NAMES[k], a, ph, k, v, m, not (w.symbolic and extrap))
    w.unchanged('points', snap)


# -------------------------------------------------------------------- OTIS
def stub_nodes(w):
    """staggered nodes by contract (P19): functions of the bathymetry"""
    if not w.symbolic:
        return
    np = w.np

    def grids(tag, hz, is_global, **k):
        ny, nx = np.shape(hz)
        J, I = np.arange(ny)[:, None], np.arange(nx)[None, :]
        h = w.data(hz)[0, 0]
        g = '%s/%s' % (tag, bool(is_global))
        return [w.uf(n + g, J, I, h, w.data(hz), opaque=True, **k) for n in ('u', 'v')]
    w.stub('pyTMD.io.OTIS._mask_nodes', lambda hz, is_global=True: grids('mask', hz, is_global, kind='I', lo=0, hi=1))
    w.stub('pyTMD.io.OTIS._interpolate_zeta', lambda hz, is_global=True: grids('depth', hz, is_global, lo=0, hi=12000))


def stub_crs(w, geographic):
    """coordinate reference systems: functions of the coordinates"""
    if not w.symbolic:
        return None
    np = w.np

    class CRS:
        def get(self, projection):
            self.projection = projection
            return self

        is_geographic = geographic

        def transform(self, i, j, direction='FORWARD'):
            d = getattr(direction, 'value', direction)
            if geographic:
                return np.copy(i), np.copy(j)
            t = '%s/%s' % (self.projection, d)
            return w.uf('x/' + t, i, j), w.uf('y/' + t, i, j)
    w.stub('pyTMD.crs', CRS)


def crop_contract(w, mod, crop, nx, x, y, **kw):
    """cropped by contract (P19)"""
    bounds, buffer = [-10.0, 40.0, -20.0, 50.0], 7.0
    if not w.symbolic:
        bounds = [x[1] - 0.1, x[-2] + 0.1, y[1] - 0.1, y[-2] + 0.1]
        buffer = (x[1] - x[0]) * 1.5
    name = 'pyTMD.io.%s._crop' % mod
    cropper = w.get(name)
    if crop and w.symbolic:
        nc = w.dim('nc', lo=3)
        XC = w.axis('xc', nc, lo=-180, hi=540)
        w.assume(XC[0] <= 180)
        w.assume(XC[-1] <= XC[0] + 360)
        w.assume(XC[1] - XC[0] == x[1] - x[0])

        def cropper(z, a, b, bounds=None, buffer=None, **k):
            w.true('bounds', bounds == BOUNDS[0] and buffer == BOUNDS[1] and k == kw)
            w.eq('x-coordinates that are cropped', a, x)
            w.eq('y-coordinates that are cropped', b, y)
            return w.reindexed(z, nc, 'cropped'), XC.copy(), b.copy()
        w.stub(name, cropper)
        stub_extension(w, mod, XC)
    BOUNDS = (bounds, buffer)
    return cropper, BOUNDS


PROJ = {'4326': 'EPSG:4326', 'PSNorth': dict(datum='WGS84', lat_0=90, lat_ts=70, lon_0=-45, proj='stere', type='crs', units='km', x_0=0, y_0=0)}
GRIDS = ['OTIS', 'OTIS list', 'ATLAS', 'TMD3', 'TMD3 flexure']
OT = [dict(fmt='OTIS', type=t, method=m, extrap=e, via=v, proj='4326', crop=False) for t in ('z', 'u') for m in METHODS for e in (False, True) for v in ('extract', 'read')
      if (t, m, e) != ('u', 'nearest', True)]
OT += [dict(fmt='OTIS', type=t, method=m, extrap=e, via=v, proj='4326', crop=False) for t in ('U', 'v', 'V') for m, e in (('bilinear', True), ('spline', False)) for v in ('extract', 'read')]
OT += [dict(fmt='OTIS', type=t, method=m, extrap=e, via=v, proj='PSNorth', crop=False) for t in ('z', 'v') for m, e in (('spline', True), ('linear', False)) for v in ('extract', 'read')]
OT += [dict(fmt=f, type=t, method='spline', extrap=False, via=v, proj='4326', crop=False) for f in GRIDS[1:] for t in ('z', 'u', 'V') for v in ('extract', 'read')]
OT += [dict(fmt=f, type=t, method='spline', extrap=False, via=v, proj=p, crop=True) for f, t, p in (('OTIS', 'z', '4326'), ('OTIS', 'u', 'PSNorth'), ('TMD3', 'v', '4326')) for v in ('extract', 'read')]


@contract('P20', 'OTIS, ATLAS-compact and TMD3', functions=['io.OTIS.extract_constants', 'io.OTIS.read_constants', 'io.OTIS.interpolate_constants'], params=OT, tol=1e-6, trials=8, timeout=240, assumes=ASSUME)
def otis(w, fmt, type, method, extrap, via, proj, crop, former=False):
    """heights, transports and velocities (transport over depth) on their own nodes of
    the staggered grid, in the coordinate reference system of the model"""
    geographic = proj == '4326'
    stub_interpolation(w)
    stub_nodes(w)
    stub_crs(w, geographic)
    np = w.np
    projection = PROJ[proj]
    nx, ny, x, y = model_grid(w, geographic)
    if not crop:
        stub_extension(w, 'OTIS', x)
    n = w.dim('n', lo=2, hi=6)
    p, q = points(w, n, x, y, geographic, projection)
    hz = w.array('hz', (ny, nx), lo=-20, hi=9000)
    mz = w.array('mz', (ny, nx), kind='I', lo=0, hi=1)
    sf = w.array('sf', (ny, nx), lo=0, hi=1)
    Z = {c: w.masked('z' + c, (ny, nx), 'C') for c in ('m2', 'k1')}
    if not w.symbolic:
        wet = w.rng.random() < 0.8
        for j in range(ny):
            for i in range(nx):
                hz[j, i] = w.rng.uniform(10, 9000) if wet and w.rng.random() < 0.9 else w.rng.choice([0.0, 50.0])
                mz[j, i] = 1 if hz[j, i] > 0 and w.rng.random() < 0.95 else 0
                for c in Z:
                    Z[c].mask[j, i] = hz[j, i] <= 0 and w.rng.random() < 0.5
    grid, many = fmt.split()[0], fmt == 'OTIS list'
    files = [HERE, HERE.replace('constants', 'interp')] if many else HERE
    M = 'pyTMD.io.OTIS.'
    other = Z['m2'] * 2
    calls = []

    class Field:
        """what a reader of ATLAS-compact files returns"""
        def __init__(self, *what):
            self.what = what
    if grid == 'ATLAS':
        X0, Y0, PM, LOC = 'x0', 'y0', 'pmask', Field('grid')
        w.patch(M + 'read_atlas_grid', lambda f: (X0, Y0, Field('depth'), Field('mask'), None, 0, PM, LOC))

        def combine(a, b, z, pm, local, variable='depth'):
            w.true('coordinates of the base model', a is X0 and b is Y0 and pm is PM)
            if variable == 'depth':
                w.true('depth', z.what == ('depth',) and local is LOC)
                return x.copy(), y.copy(), hz.copy()
            w.true('component', z.what[0] == variable and local.what == ('local', z.what[0] if variable == 'z' else 'uv') + z.what[1:])
            return x.copy(), y.copy(), Z[z.what[2]].copy()

        def atlas_mask(a, b, m, local, variable='depth'):
            w.true('mask', a is X0 and b is Y0 and m.what == ('mask',) and local is LOC and variable == 'depth')
            return mz.copy()
        w.patch(M + 'combine_atlas_model', combine)
        w.patch(M + 'create_atlas_mask', atlas_mask)
        w.patch(M + 'read_atlas_elevation', lambda f, i, c: (Field('z', i, c), Field('local', 'z', i, c)))
        w.patch(M + 'read_atlas_transport', lambda f, i, c: (Field('u', i, c), Field('v', i, c), Field('local', 'uv', i, c)))
    elif grid == 'TMD3':
        w.patch(M + 'read_netcdf_grid', lambda f: (x.copy(), y.copy(), hz.copy(), mz.copy(), sf.copy()))

        def component(f, i, variable='z'):
            w.true('component', variable == type.lower())
            return Z[['m2', 'k1'][i]].copy()
        w.patch(M + 'read_netcdf_file', component)
    else:
        w.patch(M + 'read_otis_grid', lambda f: (x.copy(), y.copy(), hz.copy(), mz.copy(), None, 0))

        def name(f, i):
            if many:
                w.true('first constituent of each file', i == 0)
                return 'm2' if str(f) == files[0] else 'k1'
            return ['m2', 'k1'][i]

        def transport(f, i):
            c = Z[name(f, i)].copy()
            calls.append(c)
            return (c, other.copy()) if type in 'uU' else (other.copy(), c)

        def elevation(f, i):
            w.true('heights', type == 'z')
            return Z[name(f, i)].copy()
        w.patch(M + 'read_otis_elevation', elevation)
        w.patch(M + 'read_otis_transport', transport)

    def names(f, grid='OTIS'):
        if many:
            return (['m2'] if str(f) == files[0] else ['k1']), 1
        w.true('format of the file', grid == fmt.split()[0])
        return ['m2', 'k1'], 2
    w.patch(M + 'read_constituents', names)

    cropper, BOUNDS = crop_contract(w, 'OTIS', crop, nx, x, y, is_geographic=geographic)
    bounds, buffer = BOUNDS

    kw = dict(type=type, grid=grid)
    if crop:
        kw.update(crop=True, bounds=bounds, buffer=buffer)
    if fmt == 'TMD3 flexure':
        kw.update(apply_flexure=True)
    opts = dict(method=method, extrapolate=extrap)
    if extrap:
        opts['cutoff'] = 25.0
    snap = w.snapshot(p, q)
    if via == 'extract':
        a, ph, D, cons = w.get(M + 'extract_constants')(p, q, HERE, files, projection, **named(former, 'OTIS', dict(kw, **opts)))
        w.true('constituents', list(cons) == ['m2', 'k1'])
    else:
        c = w.get(M + 'read_constants')(HERE, files, projection, **kw)
        w.true('constituents', list(c.fields) == ['m2', 'k1'])
        for again in range(2):
            a, ph, D = w.get(M + 'interpolate_constants')(p, q, c, type=type, **opts)
    w.unchanged('points', snap)
    w.shape_eq('amplitude', a, (n, 2))
    w.shape_eq('phase', ph, (n, 2))

    # contract values
    zs = [Z[k] for k in ('m2', 'k1')]
    if fmt == 'TMD3 flexure' and type == 'z':
        zs = [z * sf for z in zs]
    hz0, mz0, X0, Y0 = hz, mz, x, y
    if crop:
        kc = dict(bounds=bounds, buffer=buffer, is_geographic=geographic)
        hz0, X0, Y0 = cropper(hz, x, y, **kc)
        mz0, _, _ = cropper(mz, x, y, **kc)
        zs = [cropper(z, x, y, **kc)[0] for z in zs]
    P, Q = w.get('pyTMD.crs')().get(projection).transform(p, q)
    # around the globe
    dx, dy = x[1] - x[0], y[1] - y[0]
    around = geographic and np.isclose(X0[-1] - X0[0], 360 - dx)
    XE, ext = X0, lambda z: z
    if around:
        XE, ext = w.get(M + '_extend_array')(X0.copy(), dx), w.get(M + '_extend_matrix')
    XN, YN = XE, Y0
    if type == 'z':
        valid, depth = mz0, hz0
    else:
        k = 'uUvV'.index(type) // 2
        valid = w.get(M + '_mask_nodes')(hz0, is_global=around)[k]
        depth = w.get(M + '_interpolate_zeta')(hz0, is_global=around)[k]
        XN, YN = (XE - dx / 2, Y0) if k == 0 else (XE, Y0 - dy / 2)
    depth, valid = ext(depth), ext(valid)
    bathymetry = np.ma.array(w.data(depth), mask=(w.data(depth) == 0) | (w.data(valid) == 0))
    domain = (XE, Y0) if via == 'extract' else (XN, YN)
    P = wrapped(w, X0 if via == 'extract' else XN, P, geographic)
    out, depth, Dm = expected(w, method, extrap, XN, YN, [ext(z) for z in zs], P, Q, bathymetry=bathymetry, velocity=type in 'uv', zero=('inside', 'extrapolated') if method == 'bilinear' else ('extrapolated',),
                              cutoff=opts.get('cutoff', 10.0), geographic=geographic, domain=domain)
    for k, (v, m) in enumerate(out):
        polar(w, ['m2', 'k1'][k], a, ph, k, v, m, not (w.symbolic and extrap))
    w.eq('mask of depth', w.mask(D), Dm)
    w.eq('depth', w.data(D), depth, where=~Dm)


# -------------------------------------------------------------- ATLAS netCDF
AT = [dict(type=t, method=m, extrap=e, via=v, crop=False) for t in ('z', 'u') for m in METHODS for e in (False, True) for v in ('extract', 'read')]
AT += [dict(type=t, method='spline', extrap=False, via=v, crop=False) for t in ('U', 'v', 'V') for v in ('extract', 'read')]
AT += [dict(type=t, method='spline', extrap=False, via=v, crop=True) for t in ('z', 'v') for v in ('extract', 'read')]


@contract('P20', 'ATLAS netCDF grids', functions=['io.ATLAS.extract_constants', 'io.ATLAS.read_constants', 'io.ATLAS.interpolate_constants'], params=AT, tol=1e-6, trials=8, timeout=240, assumes=ASSUME)
def atlas(w, type, method, extrap, via, crop, former=False):
    """heights, transports and velocities (transport over depth) on the nodes given in
    the grid file, for each of the constituent files"""
    stub_interpolation(w)
    np = w.np
    nx, ny, x, y = model_grid(w)
    if not crop:
        stub_extension(w, 'ATLAS', x)
    n = w.dim('n', lo=2, hi=6)
    p, q = points(w, n, x, y)
    hz = w.array('hz', (ny, nx), lo=0, hi=9000)
    Z = {c: w.masked('z' + c, (ny, nx), 'C') for c in ('m2', 'k1')}
    if not w.symbolic:
        for j in range(ny):
            for i in range(nx):
                hz[j, i] = w.rng.uniform(10, 9000) if w.rng.random() < 0.85 else 0.0
    B = np.ma.array(hz, mask=(hz == 0))
    M = 'pyTMD.io.ATLAS.'
    files = [HERE, HERE.replace('constants', 'interp')]
    asked = []

    def grid(f, t, compressed=False):
        asked.append((str(f) == HERE, t, compressed))
        return x.copy(), y.copy(), B.copy()

    def component(f, t, compressed=False):
        asked.append((True, t, compressed))
        c = 'm2' if str(f) == files[0] else 'k1'
        return Z[c].copy(), c
    w.patch(M + 'read_netcdf_grid', grid)
    w.patch(M + 'read_netcdf_file', component)
    cropper, BOUNDS = crop_contract(w, 'ATLAS', crop, nx, x, y)
    kw = dict(type=type, compressed=via == 'read')
    if crop:
        kw.update(crop=True, bounds=BOUNDS[0], buffer=BOUNDS[1])
    opts = dict(method=method, extrapolate=extrap, scale=0.01)
    if extrap:
        opts['cutoff'] = 25.0
    snap = w.snapshot(p, q)
    if via == 'extract':
        a, ph, D, cons = w.get(M + 'extract_constants')(p, q, HERE, files, **named(former, 'ATLAS', dict(kw, **opts)))
        w.true('constituents', list(cons) == ['m2', 'k1'])
    else:
        c = w.get(M + 'read_constants')(HERE, files, **kw)
        w.true('constituents', list(c.fields) == ['m2', 'k1'])
        for again in range(2):
            a, ph, D = w.get(M + 'interpolate_constants')(p, q, c, type=type, **opts)
    w.true('files', len(asked) == 3 and all(r == (True, type, via == 'read') for r in asked))
    w.unchanged('points', snap)
    w.shape_eq('amplitude', a, (n, 2))
    w.shape_eq('phase', ph, (n, 2))
    zs, X0, Y0 = [Z[k] for k in ('m2', 'k1')], x, y
    if crop:
        kc = dict(bounds=BOUNDS[0], buffer=BOUNDS[1])
        B, X0, Y0 = cropper(B, x, y, **kc)
        zs = [cropper(z, x, y, **kc)[0] for z in zs]
    dx = x[1] - x[0]
    XE, ext = X0, lambda z: z
    if np.isclose(X0[-1] - X0[0], 360 - dx):
        XE, ext = w.get(M + '_extend_array')(X0.copy(), dx), w.get(M + '_extend_matrix')
    B = ext(B)
    B = np.ma.array(w.data(B), mask=w.data(B) == 0)
    P = wrapped(w, X0 if via == 'extract' else XE, p)
    out, depth, Dm = expected(w, method, extrap, XE, Y0, [ext(z) for z in zs], P, q, bathymetry=B, velocity=type in 'uv', scale=w.const('0.01'), cutoff=opts.get('cutoff', 10.0))
    for k, (v, m) in enumerate(out):
        polar(w, ['m2', 'k1'][k], a, ph, k, v, m, not (w.symbolic and extrap))
    w.eq('mask of depth', w.mask(D), Dm)
    w.eq('depth', w.data(D), depth, where=~Dm)
