"""Programs of the command line: scripts/compute_*.py"""
import os
import pathlib
import types

from pyvc.contract import contract, product
from contracts import drivers as D
from contracts.files import scratch

ASSUME = D.ASSUME + ('readers and writers of spatial data files by their contract (P25), replaced by the fields they return and are given',)
FORMATS = dict(csv='ascii', netCDF4='netCDF4', HDF5='HDF5', GTiff='geotiff', cog='geotiff', parquet='parquet')
# units of the times of a file, epoch and seconds of a unit
UNITS = {'default': ('days since 1858-11-17T00:00:00', (1858, 11, 17, 0, 0, 0), 86400),
         'seconds': ('seconds since 2000-01-01T12:00:00', (2000, 1, 1, 12, 0, 0), 1),
         'hours': ('hours since 1992-02-03T04:05:06', (1992, 2, 3, 4, 5, 6), 3600),
         'minutes': ('minutes since 2018-01-01 00:00:00', (2018, 1, 1, 0, 0, 0), 60)}
FILL = -9999.0


def stub_time(w):
    if not w.symbolic:
        return

    class TS(D.TS):
        def to_string(self, *a, **k):
            return 'dates as strings'

    def num(epoch):
        return tuple(int(e) for e in epoch)

    class Timescale:
        def from_deltatime(self, t, epoch=None, standard='UTC', **kw):
            return TS(w, t, 'delta/%s/%s' % (num(epoch), standard.upper()))

        def from_datetime(self, t):
            return TS(w, t, 'datetime')
    w.stub('timescale.time.Timescale', Timescale)


def stub_crs(w, module):
    """projections as functions of their names; 'unknown' is none"""
    if not w.symbolic:
        return
    import pyproj.exceptions as E

    class CRS:
        def from_input(self, e):
            if e == 'unknown':
                raise E.CRSError('unknown')
            return 'in/%s' % e

        @staticmethod
        def from_epsg(e):
            return 'epsg/%s' % e

    class Transformer:
        @staticmethod
        def from_crs(a, b, always_xy=False):
            class T:
                def transform(self, x, y):
                    return tuple(w.uf('%s/%s>%s/%s' % (n, a, b, always_xy), x, y) for n in ('lon', 'lat'))
            return T()
    w.stub('pyTMD.crs', CRS)
    w.stub(module + '.pyproj', types.SimpleNamespace(CRS=CRS, Transformer=Transformer, exceptions=E))


class Table(dict):
    """columns of a parquet file"""
    attrs = None


def setting(w, program, form, fmt, units, standard, proj, time):
    """(run, lon, lat, times, shape): run(**options) calls the program and returns what it
    writes and the attributes"""
    np = w.np
    module = 'scripts.' + program
    stub_time(w)
    stub_crs(w, module)
    lim, lit = (dict(lo=-170, hi=170), dict(lo=-85, hi=85)) if proj in ('default', 'unknown') else (dict(lo=-3e6, hi=3e6),) * 2
    nt = w.dim('nt', hi=4)
    if form == 'drift':
        x, y = w.array('x', (nt,), **lim), w.array('y', (nt,), **lit)
        X, Y, shape = x, y, (nt,)
    elif form == 'time series':
        n = w.dim('n', hi=4)
        x, y = w.array('x', (n,), **lim), w.array('y', (n,), **lit)
        X, Y, shape = x, y, (n, nt)
    else:
        nx, ny = w.dim('nx', hi=4), w.dim('ny', hi=4)
        x, y = w.array('x', (nx,), **lim), w.array('y', (ny,), **lit)
        X, Y = np.meshgrid(x, y)
        shape = (ny, nx, nt)
    string, epoch, sec = UNITS[units]
    t = w.array('t', (nt,), lo=(1992 - epoch[0]) * 3.16e7 / sec, hi=(2020 - epoch[0]) * 3.15e7 / sec)
    if standard == 'datetime' and not w.symbolic:
        t = np.datetime64('1995-01-01') + (86400 * w.array('s', (nt,), lo=0, hi=9000)).astype('timedelta64[s]')
    # the file
    cols = Table(x=x, y=y)
    attrs = {'data': {}}
    options = {}
    if time == 'argument':
        # the times of the file are not used
        cols['time'] = t if fmt == 'parquet' else np.zeros(1)
        options['TIME'] = t
        if units != 'default':
            options['TIME_UNITS'] = string
    else:
        cols['time'] = t
        if time == 'attribute':
            attrs['time'] = dict(units=string)
            options['TIME_UNITS'] = 'hours since 1970-01-01T00:00:00'
        elif time == 'bad attribute':
            attrs['time'] = dict(units='moons since 1970-01-01T00:00:00')
            options['TIME_UNITS'] = string
        elif units != 'default':
            options['TIME_UNITS'] = string
    if standard != 'UTC':
        options['TIME_STANDARD'] = standard
    name = '4326'
    if proj == 'file':
        attrs['projection'], options['PROJECTION'] = 'EPSG:3031', '3413'
        name = 'EPSG:3031'
    elif proj == 'argument':
        options['PROJECTION'] = name = '3413'
    elif proj == 'unknown':
        attrs['projection'] = 'unknown'
    if fmt in ('GTiff', 'cog'):
        attrs.update(wkt='WKT', spacing=(1.0, -1.0), extent=(0.0, 1.0, 2.0, 3.0))
        attrs.setdefault('projection', '4326')
    if fmt == 'parquet' and form == 'drift':
        attrs.update(geoparquet=True, geometry_encoding='WKB')
    if form != 'drift':
        options['TYPE'] = form
    if fmt != 'csv':
        options['FORMAT'] = fmt
    variables = ['date', 'northing', 'easting', 'z']
    options['VARIABLES'] = variables
    options['HEADER'], options['DELIMITER'] = 3, ';'
    if fmt == 'parquet':
        if w.symbolic:
            data = cols
        else:
            import pandas
            data = pandas.DataFrame(dict(cols))
        data.attrs = attrs
    else:
        data = dict(cols, attributes=attrs)
    read, written = [], []
    mapping = dict(time='date', y='northing', x='easting', data='z')

    def reader(kind):
        def f(file, *a, **kw):
            read.append((kind, file, a, kw))
            return data
        w.patch('pyTMD.spatial.from_' + kind, f)

    def writer(kind):
        def f(output, attributes, file, **kw):
            written.append((kind, output, attributes, file, kw))
        w.patch('pyTMD.spatial.to_' + kind, f)
    for k in set(FORMATS.values()):
        reader(k)
        writer(k)
    dates = t if standard == 'datetime' else sec * t
    T = w.get('timescale.time.Timescale')
    ts = T().from_datetime(dates) if standard == 'datetime' else T().from_deltatime(dates, epoch=epoch, standard=standard)
    if w.symbolic:
        lon, lat = (w.uf('%s/in/%s>epsg/4326/True' % (n, name), X, Y) for n in ('lon', 'lat'))
    else:
        lon, lat = D.lonlat(w, X, Y, name.replace('EPSG:', ''))
    snap = w.snapshot(x, y)

    def run(*args, variable=None, **kw):
        with scratch() as d:
            f = pathlib.Path(os.path.join(d, 'out.file'))
            f.write_text('')
            w.get('%s.%s' % (module, program))(*args, 'in.file', f, MODE=0o751, **options, **kw)
            w.true('mode of the output', f.stat().st_mode & 0o777 == 0o751)
        want = FORMATS[fmt]
        w.true('one file read, one written', len(read) == 1 and len(written) == 1)
        kind, file, a, rk = read[0]
        w.true('file read', kind == want and file == 'in.file' and not a)
        if fmt == 'csv':
            w.true('columns read', same(rk, dict(columns=variables, header=3, delimiter=';', parse_dates=standard == 'datetime')))
        elif fmt == 'parquet':
            w.true('columns read', same(rk, dict(columns=variables)))
        elif fmt in ('netCDF4', 'HDF5'):
            w.true('fields read', same(rk, dict(field_mapping=mapping)))
        kind, output, attrib, file, wk = written[0]
        w.true('file written', kind == want and file is f)
        main = variable if len(variable) == 1 else ('u', 'v')
        if fmt == 'csv':
            w.true('columns written', same(wk, dict(columns=['time', 'lat', 'lon'] + list(main), delimiter=';', header=False)))
        elif fmt == 'netCDF4':
            w.true('type written', same(wk, dict(data_type=form)))
        elif want == 'geotiff':
            w.true('image written', same(wk, dict(varname=main[0] if len(main) == 1 else 'data', driver=fmt)))
            w.true('attributes of the image', all(attrib[k] == attrs[k] for k in ('projection', 'wkt', 'spacing', 'extent')))
        elif fmt == 'parquet':
            w.true('parquet written', same(wk, dict(crs=4326, geoparquet=form == 'drift', geometry_encoding='WKB' if form == 'drift' else None)))
        lo, la = (np.reshape(output[k], np.shape(X)) for k in ('lon', 'lat'))
        w.eq('longitude', lo, lon)
        w.eq('latitude', la, lat)
        w.shape_eq('longitude: shape', output['lon'], np.shape(X))
        if fmt == 'csv' and standard == 'datetime':
            if w.symbolic:
                w.true('dates', output['time'] == 'dates as strings')
            else:
                w.true('dates', [str(v)[:16] for v in output['time']] == [str(v)[:16] for v in ts.to_string()])
        else:
            w.eq('time', output['time'], ts.tide)
            w.true('units of time', attrib['time']['units'] == 'days since 1992-01-01T00:00:00')
        w.true('attributes of all fields', set(output) - {'data'} == {'lon', 'lat', 'time'} | set(variable) and all(k in attrib for k in output))
        w.unchanged('inputs', snap)
        return output, attrib
    return run, lon, lat, ts, shape


def same(got, want):
    """the options given, others left alone"""
    rest = {k: v for k, v in got.items() if k not in want}
    return all(k in got and got[k] == v for k, v in want.items()) and all(v in (None, False, 'w', '') for v in rest.values())


def case(form, fmt, units='default', standard='UTC', proj='default', time='file', **k):
    return dict(form=form, fmt=fmt, units=units, standard=standard, proj=proj, time=time, **k)


CASES = [case('drift', 'csv', 'seconds', 'GPS'), case('drift', 'csv', standard='datetime', proj='argument'), case('drift', 'netCDF4', 'hours', 'TAI', 'file', 'attribute'),
         case('drift', 'HDF5', 'minutes', 'UTC', 'unknown', 'bad attribute'), case('drift', 'parquet', 'seconds', 'LORAN', 'argument'), case('drift', 'parquet', 'default', 'UTC', 'default', 'argument'),
         case('time series', 'netCDF4', 'default', 'UTC', 'argument', 'attribute'), case('time series', 'HDF5', 'seconds', 'GPS', 'file', 'file'), case('time series', 'csv', 'hours', 'UTC', 'default', 'argument'),
         case('grid', 'netCDF4', 'hours', 'UTC', 'file', 'attribute'), case('grid', 'HDF5', 'default', 'TAI', 'default', 'file'), case('grid', 'GTiff', 'seconds', 'UTC', 'file', 'argument'), case('grid', 'cog', 'default', 'GPS', 'default', 'argument')]


def variants(**k):
    """the cases, with the values of k in turn"""
    return [dict(c, **{n: v[i % len(v)] for n, v in k.items()}) for i, c in enumerate(CASES)]


def cover(*lists):
    return [p for l in lists for p in l]


# ------------------------------------------------------------------- tides
def run_tides(w, kind, corr, minor, how, **p):
    np = w.np
    program = 'compute_tidal_%ss' % kind
    run, lon, lat, ts, shape = setting(w, program, **p)
    D.stub_predict(w)
    M = D.Constants(w, ['m1', 'l2'])
    D.stub_model(w, M, kind)
    names = ['tide_ocean'] if kind == 'elevation' else ['u', 'v']
    M.name, M.reference, M.variable = 'a model', 'a reference', 'tide_ocean'
    M.description = 'description' if kind == 'elevation' else dict(u='of u', v='of v')
    M.long_name = 'long name' if kind == 'elevation' else dict(u='long u', v='long v')
    kw = {}
    if corr != 'default':
        kw['CORRECTIONS'] = corr
    if minor != 'none':
        kw['INFER_MINOR'] = True
    if minor == 'given':
        kw['MINOR_CONSTITUENTS'] = ['eta2', 'rho1']
    extra = {}
    if p['form'] != 'grid':
        extra = dict(CROP=True, BUFFER=5, METHOD='bilinear', EXTRAPOLATE=True, CUTOFF=70.0)
        if kind == 'elevation':
            extra.update(APPEND_NODE=True, APPLY_FLEXURE=True)
    kw.update(extra)
    if how == 'file':
        kw['DEFINITION_FILE'] = 'definition.json'
    else:
        kw['TIDE_MODEL'] = 'a model'
        if how == 'raw':
            kw['GZIP'] = False
    out, attrib = run('a directory', variable=names, FILL_VALUE=FILL, **kw)
    w.true('model', M.how == (('file', 'definition.json') if how == 'file' else (kind, 'a model')))
    w.true('directory', str(M.init[0]) == 'a directory' and (how == 'file' or M.init[1].get('compressed') is (how != 'raw')))
    types_ = ['z'] if kind == 'elevation' else ['u', 'v']
    w.true('one extraction for each type', [c['type'] for c in M.calls] == types_)
    for call in M.calls:
        want = dict(crop=False, buffer=None, method='spline', extrapolate=False, cutoff=None)
        if kind == 'elevation':
            want.update(append_node=False, apply_flexure=False)
        want.update({k.lower(): v for k, v in extra.items()})
        for k, v in want.items():
            w.true('option %s' % k, call.get(k) == v)
    cor = 'FES' if corr == 'default' else corr
    mn = {'none': False, 'given': ['eta2', 'rho1'], 'default': ['m1', 'l2']}[minor]
    parts = []
    for q, n in zip(types_, names):
        h, bad = D.oracle(w, p['form'], lon, lat, M, q, ts, cor, mn)
        w.shape_eq('tide', out[n], shape)
        w.eq('mask', w.mask(out[n]), bad)
        w.eq('tide', w.data(out[n]), h, where=~bad)
        w.eq('fill value', w.data(out[n]), FILL + 0 * h, where=bad)
        w.true('fill value', attrib[n]['_FillValue'] == FILL)
        w.true('units', attrib[n]['units'] == ('meters' if kind == 'elevation' else 'cm/s'))
        w.true('description', attrib[n]['description'] == (M.description if kind == 'elevation' else M.description[n]))
        parts.append((h, bad))
    if kind == 'current' and p['fmt'] in ('GTiff', 'cog'):
        nt = shape[-1]
        w.shape_eq('bands', out['data'], shape[:-1] + (2 * w.size(nt),))
        for i, (h, bad) in enumerate(parts):
            b = out['data'][:, :, i * w.size(nt):(i + 1) * w.size(nt)]
            w.eq('bands', w.data(b), h, where=~bad)
            w.eq('bands: fill value', w.data(b), FILL + 0 * h, where=bad)


@contract('P26', 'tidal elevations of files', functions=['scripts.compute_tidal_elevations.compute_tidal_elevations', 'scripts.compute_tidal_elevations.get_projection'],
          params=variants(corr=['default', 'OTIS', 'GOT', 'netcdf', 'perth3'], minor=['none', 'default', 'given', 'default'], how=['file', 'name', 'raw']), trials=2, tol=1e-6, assumes=ASSUME)
def elevations(w, **p):
    """height of every point and time of the file: prediction from the constants of that
    point plus the inferred minor constituents"""
    run_tides(w, 'elevation', **p)


@contract('P26', 'tidal currents of files', functions=['scripts.compute_tidal_currents.compute_tidal_currents', 'scripts.compute_tidal_currents.get_projection'],
          params=variants(corr=['OTIS', 'default', 'GOT', 'TMD3'], minor=['default', 'given', 'none'], how=['name', 'raw', 'file', 'name']), trials=2, tol=1e-6, assumes=ASSUME)
def currents(w, **p):
    """currents of every point and time of the file"""
    run_tides(w, 'current', **p)


# ------------------------------------------------------------ displacements
@contract('P26', 'equilibrium tides of files', functions=['scripts.compute_LPET_elevations.compute_LPET_elevations', 'scripts.compute_LPET_elevations.get_projection'], params=CASES, trials=2, tol=1e-9, assumes=ASSUME)
def equilibrium(w, **p):
    """equilibrium tide of every point at the dynamical time of every date of the file"""
    run, lon, lat, ts, shape = setting(w, 'compute_LPET_elevations', **p)
    if w.symbolic:
        w.stub('pyTMD.predict.equilibrium_tide', lambda t, lat: w.np.atleast_1d(w.uf('lpet', t, lat)))
    out, attrib = run(variable=['tide_lpe'])
    (T,), (L,) = D.expand(w, p['form'], [ts.tide + ts.tt_ut1], [lat])
    want = w.uf('lpet', T, L) if w.symbolic else w.np.reshape(w.get('pyTMD.predict.equilibrium_tide')(T.ravel(), L.ravel()), T.shape)
    w.shape_eq('tide', out['tide_lpe'], shape)
    w.eq('tide', out['tide_lpe'], want)
    w.true('units', attrib['tide_lpe']['units'] == 'meters')


def radial(w, got, want, attrib, shape):
    D.valid_radial(w, got, want, shape)
    w.true('fill value', attrib['_FillValue'] == FILL)
    w.true('units', attrib['units'] == 'meters')


@contract('P26', 'load pole tides of files', functions=['scripts.compute_LPT_displacements.compute_LPT_displacements', 'scripts.compute_LPT_displacements.get_projection'],
          params=variants(ell=D.ELL, conv=('2018', '2003', '2010')), trials=2, tol=1e-9, assumes=ASSUME)
def load_pole(w, ell, conv, **p):
    """radial component of the load pole tide at every point and date of the file"""
    run, lon, lat, ts, shape = setting(w, 'compute_LPT_displacements', **p)
    D.stub_cartesian(w)
    if w.symbolic:
        D.vector_stub(w, 'load_pole_tide')
        w.stub('timescale.time.convert_julian', lambda JD, **k: tuple(w.uf('cal/' + c, JD) for c in 'YMDhms'))
        w.stub('timescale.time.convert_calendar_decimal', lambda Y, M, **k: w.uf('decimal', Y))
    kw = {}
    if ell != 'WGS84':
        kw['ELLIPSOID'] = ell
    if conv != '2018':
        kw['CONVENTION'] = conv
    out, attrib = run(variable=['tide_pole'], FILL_VALUE=FILL, **kw)
    d = w.get('pyTMD.datum')(ellipsoid=ell, units='MKS')
    X = D.station(w, lon, lat, d.a_axis, d.flat)
    theta = w.np.pi / 2 - w.np.arctan(X[2] / w.np.sqrt(X[0] ** 2 + X[1] ** 2))
    (T, dt), Q = D.expand(w, p['form'], [ts.tide, ts.tt_ut1], X + [d.gamma_0(theta)])
    v = D.displacement(w, 'load_pole_tide', T, Q[:3], deltat=dt, gamma_0=Q[3], omega=d.omega, h2=w.const('0.6207'), l2=w.const('0.0836'), convention=conv)
    radial(w, out['tide_pole'], (v[0] * Q[0] + v[1] * Q[1] + v[2] * Q[2]) / D.norm(w, Q[:3]), attrib['tide_pole'], shape)


@contract('P26', 'ocean pole tides of files', functions=['scripts.compute_OPT_displacements.compute_OPT_displacements', 'scripts.compute_OPT_displacements.get_projection'],
          params=variants(ell=D.ELL, conv=('2018', '2003', '2010'), method=('spline', 'linear')), trials=2, tol=1e-8, assumes=ASSUME)
def ocean_pole(w, ell, conv, method, **p):
    """radial component of the ocean pole tide with the radial coefficients at the
    geocentric latitude of every point of the file"""
    np = w.np
    run, lon, lat, ts, shape = setting(w, 'compute_OPT_displacements', **p)
    D.stub_cartesian(w)
    w.patch('pyTMD.io.IERS.extract_coefficients', lambda lon, lat, method='spline', **k: D.loading(w, lon, lat, method))

    def response(t, dt, a, g, GM, om, rho, g2, conv):
        return [w.uf('ocean pole/%s/%s' % (n, conv), t, dt, a, g, GM, om, rho, g2.real, g2.imag) for n in 'AB']
    if w.symbolic:
        # P10: linear in the real and imaginary parts of the coefficients
        def tide(t, XYZ, UXYZ, deltat=0.0, gamma_0=None, a_axis=None, GM=None, omega=None, rho_w=None, g2=None, convention=None):
            A, B = response(t, deltat, a_axis, gamma_0, GM, omega, rho_w, g2, convention)
            return np.stack([A * UXYZ[:, i].real + B * UXYZ[:, i].imag for i in range(3)], axis=1)
        w.stub('pyTMD.predict.ocean_pole_tide', tide)
    kw = {}
    if ell != 'WGS84':
        kw['ELLIPSOID'] = ell
    if conv != '2018':
        kw['CONVENTION'] = conv
    if method != 'spline':
        kw['METHOD'] = method
    out, attrib = run(variable=['tide_oc_pole'], FILL_VALUE=FILL, **kw)
    d = w.get('pyTMD.datum')(ellipsoid=ell, units='MKS')
    X = D.station(w, lon, lat, d.a_axis, d.flat)
    gc = np.arctan(X[2] / np.sqrt(X[0] ** 2 + X[1] ** 2)) * 180 / np.pi
    ur = D.loading(w, lon, gc, method)[0]
    (T, dt), Q = D.expand(w, p['form'], [ts.tide, ts.tt_ut1], X + [ur.real, ur.imag])
    c = dict(gamma_0=w.const('9.7803278'), a_axis=d.a_axis, GM=d.GM, omega=d.omega, rho_w=w.const('1025'), g2=0.6870 + 0.0036j, convention=conv)
    if w.symbolic:
        A, B = response(T, dt, c['a_axis'], c['gamma_0'], c['GM'], c['omega'], c['rho_w'], c['g2'], conv)
        want = A * Q[3] + B * Q[4]
    else:
        r = D.norm(w, Q[:3])
        v = D.displacement(w, 'ocean_pole_tide', T, Q[:3], [(Q[3] + 1j * Q[4]) * Q[i] / r for i in range(3)], deltat=dt, **c)
        want = (v[0] * Q[0] + v[1] * Q[1] + v[2] * Q[2]) / r
    radial(w, out['tide_oc_pole'], want, attrib['tide_oc_pole'], shape)


@contract('P26', 'solid earth tides of files', functions=['scripts.compute_SET_displacements.compute_SET_displacements', 'scripts.compute_SET_displacements.get_projection'],
          params=variants(ell=D.ELL, system=('tide_free', 'mean_tide')), trials=2, tol=1e-8, assumes=ASSUME)
def solid_earth(w, ell, system, **p):
    """radial component of the solid earth tide at every point and dynamical time of the
    file, with the sun and moon of that date"""
    run, lon, lat, ts, shape = setting(w, 'compute_SET_displacements', **p)
    D.stub_cartesian(w)
    D.stub_bodies(w)
    if w.symbolic:
        D.vector_stub(w, 'solid_earth_tide')
    kw = {}
    if ell != 'WGS84':
        kw['ELLIPSOID'] = ell
    if system != 'tide_free':
        kw['TIDE_SYSTEM'] = system
    out, attrib = run(variable=['tide_earth'], FILL_VALUE=FILL, **kw)
    d = w.get('pyTMD.datum')(ellipsoid=ell, units='MKS')
    X = D.station(w, lon, lat, d.a_axis, d.flat)
    S, L = (w.get('pyTMD.astro.%s_ecef' % n)(ts.MJD, ephemerides='approximate') for n in ('solar', 'lunar'))
    V, Q = D.expand(w, p['form'], [ts.tide + ts.tt_ut1] + list(S) + list(L), X)
    v = D.displacement(w, 'solid_earth_tide', V[0], Q, V[1:4], V[4:7], a_axis=d.a_axis, tide_system=system)
    radial(w, out['tide_earth'], (v[0] * Q[0] + v[1] * Q[1] + v[2] * Q[2]) / D.norm(w, Q), attrib['tide_earth'], shape)
    w.true('description', system in attrib['tide_earth']['description'])


# ------------------------------------------------------------- command lines
COMMON = [('--format', 'F', 'FORMAT', 'csv', ['csv', 'netCDF4', 'HDF5', 'GTiff', 'cog', 'parquet']), ('--variables', 'v', 'VARIABLES', ['time', 'lat', 'lon', 'data'], [['t', 'y', 'x'], ['when', 'south', 'east', 'h', 'extra']]),
          ('--header', 'H', 'HEADER', 0, [1, 12]), ('--delimiter', None, 'DELIMITER', ',', [';', '|']), ('--type', 't', 'TYPE', 'drift', ['drift', 'grid', 'time series']),
          ('--epoch', 'e', 'TIME_UNITS', UNITS['default'][0], [u[0] for u in UNITS.values()]), ('--deltatime', 'd', 'TIME', None, [[1.5], [0.0, 12.25, 1e4]]),
          ('--standard', 's', 'TIME_STANDARD', 'UTC', ['UTC', 'GPS', 'TAI', 'LORAN', 'datetime']), ('--projection', 'P', 'PROJECTION', '4326', ['3031', 'EPSG:3413', '+proj=utm +zone=5']),
          ('--fill-value', 'f', 'FILL_VALUE', -9999.0, [0.5, 1e20]), ('--mode', 'M', 'MODE', 0o775, [0o640, 0o755, 0o700]), ('--verbose', 'V', None, None, [True])]
TIDES = [('--gzip', 'G', 'GZIP', False, [True]), ('--crop', 'C', 'CROP', False, [True]), ('--buffer', 'B', 'BUFFER', None, [2.5, 10.0]), ('--interpolate', 'I', 'METHOD', 'spline', ['spline', 'linear', 'nearest', 'bilinear']),
         ('--extrapolate', 'E', 'EXTRAPOLATE', False, [True]), ('--cutoff', 'c', 'CUTOFF', 10.0, [3.5, float('inf')]), ('--nodal-corrections', None, 'CORRECTIONS', None, ['OTIS', 'FES', 'GOT', 'perth3']),
         ('--infer-minor', None, 'INFER_MINOR', False, [True]), ('--minor-constituents', None, 'MINOR_CONSTITUENTS', None, [['eta2'], ['2n2', 'rho1', 'l2']])]
HEIGHTS = [('--append-node', None, 'APPEND_NODE', False, [True]), ('--apply-flexure', None, 'APPLY_FLEXURE', False, [True])]
ELLIPSOID = ('--ellipsoid', 'E', 'ELLIPSOID', 'WGS84', ['GRS80', 'CLK66', 'TOPEX', 'IERS', 'WGS84'])
POLE = [ELLIPSOID, ('--convention', 'c', 'CONVENTION', '2018', ['2003', '2010', '2015', '2018'])]
LINES = {'compute_tidal_elevations': (TIDES + HEIGHTS, None), 'compute_tidal_currents': (TIDES, '_currents'), 'compute_LPET_elevations': ([], 'lpe_tide'), 'compute_LPT_displacements': (POLE, 'pole_tide'),
         'compute_OPT_displacements': (POLE + [('--interpolate', 'I', 'METHOD', 'spline', ['spline', 'linear', 'nearest'])], 'ocean_pole_tide'),
         'compute_SET_displacements': ([ELLIPSOID, ('--tide-system', 'p', 'TIDE_SYSTEM', 'tide_free', ['tide_free', 'mean_tide']), ('--ephemerides', 'c', 'EPHEMERIDES', 'approximate', ['approximate', 'JPL'])], 'solid_earth_tide')}
MODELS = {'compute_tidal_elevations': ['TPXO9-atlas-v5', 'GOT4.10', 'CATS2008', 'FES2014_load', 'EOT20'], 'compute_tidal_currents': ['TPXO9-atlas-v5', 'CATS2008', 'FES2014']}


def words(rng, option, short, value):
    """one option as words of a command line"""
    name = option if short is None or rng.random() < 0.6 else '-' + short
    if value is True:
        return [name]
    if option == '--mode':
        return [name, '%o' % value]
    return [name] + [str(v) for v in (value if isinstance(value, list) else [value])]


def command_line(w, rng, given, spec, positional, where):
    """the command line with the options given, some of them read from a file"""
    line = list(positional)
    rest = []
    for option, short, key, default, values in spec:
        if key in given or option in given:
            v = given.get(key, given.get(option))
            rest.append(words(rng, option, short, v))
    rng.shuffle(rest)
    f = os.path.join(where, 'arguments.txt')
    with open(f, 'w') as fid:
        fid.write('# arguments of a run\n\n')
        for r in [r for r in rest if all(c not in v for v in r for c in ' #')][::2]:
            rest.remove(r)
            fid.write(' '.join(r) + '  # --crop -T 3\n')
    line += ['@' + f]
    for r in rest:
        line += r
    return line


@contract('P26', 'command lines', functions=['scripts.%s.%s' % (p, f) for p in LINES for f in ('main', 'arguments')] + ['utilities.convert_arg_line_to_args'],
          params=product(program=sorted(LINES), source=['name', 'definition'], out=['given', 'default']), bounded=True, trials=25)
def command(w, program, source, out):
    """every option of a command line (or of a file of arguments) reaches the program's
    function under its name with its value; the other parameters take the documented
    defaults, and without an output file the result goes beside the input under a name of
    its own"""
    import inspect
    import sys
    rng = w.rng
    main, real = w.get('scripts.%s.main' % program), w.get('scripts.%s.%s' % (program, program))
    tides = program in MODELS
    if source == 'definition' and not tides:
        w.true('only tide models are defined by files', True)
        return
    extra, flag = LINES[program]
    spec = COMMON + extra
    given = {}
    for option, short, key, default, values in spec:
        if rng.random() < 0.5:
            given[key or option] = rng.choice(values)
    with scratch() as d:
        d = os.path.join(d, 'of the run')
        os.makedirs(os.path.join(d, 'data'))
        infile = pathlib.Path(d, 'data', rng.choice(['a.b.csv', 'points.h5', 'image.tif']))
        outfile = pathlib.Path(d, 'result.nc')
        positional = [str(infile)] + ([str(outfile)] if out == 'given' else [])
        want = {k: v for _, _, k, v, _ in spec if k}
        want.update({k: v for k, v in given.items() if not k.startswith('--')})
        model = None
        if tides:
            if source == 'name':
                model = rng.choice(MODELS[program])
                positional += ['--tide' if rng.random() < 0.5 else '-T', model]
                want.update(TIDE_MODEL=model, DEFINITION_FILE=None)
            else:
                model = 'model_of_the_user'
                f = pathlib.Path(d, 'definition.json')
                kind = 'z' if program.endswith('elevations') else ['u', 'v']

                f.write_text('{"name": "%s", "format": "OTIS", "type": %s, "grid_file": "grid", "model_file": "h.model", "projection": "EPSG:4326"}' % (model, '"z"' if kind == 'z' else '["u", "v"]'))
                positional += ['--definition-file', str(f)]
                want.update(TIDE_MODEL=None, DEFINITION_FILE=f)
            want['tide_dir'] = None
            if rng.random() < 0.5:
                want['tide_dir'] = pathlib.Path(d)
                positional += [rng.choice(['--directory', '-D']), d]
        want['input_file'] = infile
        if out == 'given':
            want['output_file'] = outfile
        elif program == 'compute_tidal_elevations':
            want['output_file'] = infile.with_name('%s_%s%s%s' % (infile.stem, model, '_flexure' if given.get('APPLY_FLEXURE') else '', infile.suffix))
        elif tides:
            want['output_file'] = infile.with_name('%s_%s%s%s' % (infile.stem, model, flag, infile.suffix))
        else:
            want['output_file'] = infile.with_name('%s_%s%s' % (infile.stem, flag, infile.suffix))
        line = command_line(w, rng, given, spec, positional, d)
        calls = []
        w.patch('scripts.%s.%s' % (program, program), lambda *a, **k: calls.append((a, k)))
        argv = sys.argv
        sys.argv = [program + '.py'] + line
        try:
            main()
            over = False
        except SystemExit:
            over = True
        finally:
            sys.argv = argv
        w.true('%s is accepted and runs once' % ' '.join(line), not over and len(calls) == 1)
        bound = inspect.signature(real).bind(*calls[0][0], **calls[0][1])
        bound.apply_defaults()
        got = dict(bound.arguments)
        for k, v in want.items():
            w.true('option %s of %s' % (k, ' '.join(line)), k in got and got[k] == v)
            w.true('kind of %s' % k, v is None or isinstance(got[k], type(v)))
        w.true('output in a file of its own', got['output_file'] != infile and got['output_file'].parent in (infile.parent, outfile.parent))
        w.true('nothing else', set(got) <= set(want))


# --------------------------------------------------------- reduction of models
REGIONAL = {'CATS2008': ('CATS2008', 'grid_CATS2008', 'hf.CATS2008.out', 'uv.CATS2008.out'), 'TPXO7.2': ('TPXO7.2_tmd', 'grid_tpxo7.2', 'h_tpxo7.2', 'u_tpxo7.2'),
            'TPXO7.2_load': ('TPXO7.2_load', 'grid_tpxo6.2', 'h_tpxo7.2_load', None), 'AODTM-5': ('aodtm5_tmd', 'grid_Arc5km', 'h0_Arc5km.oce', 'UV0_Arc5km'), 'CATS0201': ('cats0201_tmd', 'grid_CATS', 'h0_CATS02_01', 'UV0_CATS02_01')}


@contract('P26', 'regional OTIS files', functions=['scripts.reduce_OTIS_files.make_regional_OTIS_files', 'scripts.reduce_OTIS_files.create_unique_filename', 'scripts.reduce_OTIS_files.main', 'scripts.reduce_OTIS_files.arguments'],
          params=product(model=sorted(REGIONAL)), bounded=True, trials=4, tol=2e-6)
def regional(w, model):
    """the reduced files hold the points of the model in the bounds, with their coordinates,
    depth, mask and constituents; no file that exists is written over"""
    import sys
    np, rng = w.np, w.rng
    O = 'pyTMD.io.OTIS.'
    folder, grid, height, transport = REGIONAL[model]
    m = w.get('pyTMD.io.model')('.', verify=False).elevation(model)
    geographic = m.projection == 'EPSG:4326'
    nx, ny, nc = rng.randint(4, 9), rng.randint(4, 9), rng.randint(1, 3)
    f4 = lambda v: np.float32(v)
    if geographic:
        x0, y0, dx, dy = f4(rng.randint(20, 200)), f4(rng.randint(-60, 20)), f4(rng.choice([0.5, 1.0, 2.0])), f4(rng.choice([0.5, 1.0]))
    else:
        x0, y0, dx, dy = f4(rng.randint(-2000, 100)), f4(rng.randint(-2000, 100)), f4(rng.choice([50, 100])), f4(rng.choice([50, 100]))
    xlim, ylim = np.array([x0, x0 + nx * dx]), np.array([y0, y0 + ny * dy])
    num = lambda n, shape: w.array(n, shape, lo=-5, hi=5).astype('f4')
    hz, mz = np.abs(num('hz', (ny, nx))) * 100, w.array('mz', (ny, nx), kind='I', lo=0, hi=1).astype('i4')
    # the sign of the time step tells geographic grids
    dt = 12.0 if geographic else -12.0
    iob = [] if rng.random() < 0.5 else np.array([[1, 2], [3, 1]], dtype='i4')
    names = ['m2', 'k1', 'mf'][:nc]
    z, u, v = (num(n + 'r', (ny, nx, nc)) + 1j * num(n + 'i', (ny, nx, nc)) for n in 'zuv')
    with scratch() as d:
        p = pathlib.Path(d, folder)
        p.mkdir()
        w.get(O + 'output_otis_grid')(p / grid, xlim, ylim, hz, mz, iob, dt)
        if height:
            w.get(O + 'output_otis_elevation')(p / height, z, xlim, ylim, names)
        if transport:
            w.get(O + 'output_otis_transport')(p / transport, u, v, xlim, ylim, names)
        # files of an earlier run
        old = {}
        for n in [grid, height, transport]:
            if n and rng.random() < 0.4:
                stem = n[:-4] if n.endswith(('.out', '.oce')) else n
                for e in ['', '_1'][:rng.randint(1, 2)]:
                    old[stem + '.reduced' + e] = b'earlier'
                    (p / (stem + '.reduced' + e)).write_bytes(b'earlier')
        before = {f.name: f.read_bytes() for f in p.iterdir()}
        # a window of the model by its bounds in the coordinates of the model
        i0, i1 = sorted(rng.sample(range(nx), 2))
        j0, j1 = sorted(rng.sample(range(ny), 2))
        xs, ys = x0 + dx * (np.arange(nx) + 0.5), y0 + dy * (np.arange(ny) + 0.5)
        pad = rng.choice([0.1, 0.4])
        bounds = [float(xs[i0] - pad * dx), float(xs[i1] + pad * dx), float(ys[j0] - pad * dy), float(ys[j1] + pad * dy)]
        projection = '4326' if geographic else w.get('pyTMD.crs')().from_input(m.projection).to_proj4()
        if rng.random() < 0.5:
            w.get('scripts.reduce_OTIS_files.make_regional_OTIS_files')(d, model, BOUNDS=bounds, PROJECTION=projection, MODE=0o640)
        else:
            argv = sys.argv
            sys.argv = ['reduce_OTIS_files.py', '-D', d, '--tide', model, rng.choice(['--bounds', '-B'])] + ['%r' % b for b in bounds] + ['--projection', projection, '--mode', '640']
            try:
                w.get('scripts.reduce_OTIS_files.main')()
            finally:
                sys.argv = argv
        after = {f.name: f.read_bytes() for f in p.iterdir()}
        w.true('files that were there', all(after.get(n) == b for n, b in before.items()))
        new = set(after) - set(before)

        def name(n):
            stem = n[:-4] if n.endswith(('.out', '.oce')) else n
            k = stem + '.reduced'
            i = 0
            while k in before:
                i += 1
                k = '%s.reduced_%d' % (stem, i)
            return k
        want = {name(n) for n in (grid, height, transport) if n}
        w.true('new files %s' % sorted(new), new == want)
        for n in want & new:
            w.true('mode', (p / n).stat().st_mode & 0o777 == 0o640)
        J, I = slice(j0, j1 + 1), slice(i0, i1 + 1)
        x, y, h, k, b, t = w.get(O + 'read_otis_grid')(p / name(grid))
        w.eq('x', x, xs[I].astype(float), tol=1e-5, scale=max(abs(xs)))
        w.eq('y', y, ys[J].astype(float), tol=1e-5, scale=max(abs(ys)))
        w.eq('depth', h.astype(float), hz[J, I].astype(float))
        w.eq('mask', k.astype(float), mz[J, I].astype(float))
        w.eq('time step', float(t), dt)
        for n, fields in ((height, [z]), (transport, [u, v])):
            if not n:
                continue
            ids, count = w.get(O + 'read_constituents')(p / name(n))
            w.true('constituents', ids == names and count == nc)
            for c in range(nc):
                got = w.get(O + 'read_otis_' + ('elevation' if n == height else 'transport'))(p / name(n), c)
                for g, f in zip(got if n == transport else [got], fields):
                    w.shape_eq('constituent', g, (j1 - j0 + 1, i1 - i0 + 1))
                    w.eq('constituent: real part', np.ma.getdata(g).real.astype(float), f[J, I, c].real.astype(float))
                    w.eq('constituent: imaginary part', np.ma.getdata(g).imag.astype(float), f[J, I, c].imag.astype(float))
