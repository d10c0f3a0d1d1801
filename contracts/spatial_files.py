"""Files of spatial data: readers and writers of pyTMD.spatial"""
import contextlib
import copy
import datetime
import gzip
import io
import json
import os
import types

from pyvc.contract import contract, product

from .files import scratch

LIB = ('netCDF4 and HDF5 files as variables by name with their values, dimensions, attributes and fill values; a variable reads as what was assigned to it (netCDF4, h5py, gzip)',)


def plain(v):
    return types.SimpleNamespace(**v)


class Var:
    """a variable of a file"""

    def __init__(self, lib, value, dims=None, fill=None):
        self.lib, self.value, self.dims, self.fill = lib, value, dims, fill
        self.attrs = {} if fill is None or lib.hdf else {'_FillValue': fill}

    @property
    def shape(self):
        return self.value.shape

    def __getitem__(self, i):
        v = self.value[i]
        if self.lib.hdf:
            return v.copy()
        np = self.lib.np
        if self.fill is None:
            return np.ma.array(v.copy())
        bad = np.isnan(v) if self.lib.nan else v == self.fill
        return np.ma.array(v.copy(), mask=bad, fill_value=self.fill)

    def __setitem__(self, i, v):
        if not (i is Ellipsis or i == slice(None) or i == ()):
            raise NotImplementedError('part of a variable')
        self.value = v.copy() if hasattr(v, 'copy') else v

    def setncattr(self, n, v):
        if n == '_FillValue':
            raise AttributeError('_FillValue attribute must be set when variable is created')
        self.attrs[n] = v

    def ncattrs(self):
        return list(self.attrs)

    def getncattr(self, n):
        return self.attrs[n]


class File:
    """a netCDF4 or HDF5 file"""

    def __init__(self, lib):
        d = self.__dict__
        d['lib'], d['dimensions'], d['variables'], d['attrs'], d['closed'], d['groups'] = lib, {}, {}, {}, False, {}
        d['filename'] = 'file'

    # netCDF4
    def __setattr__(self, n, v):
        self.attrs[n] = v

    def __getattr__(self, n):
        try:
            return self.__dict__['attrs'][n]
        except KeyError:
            raise AttributeError(n) from None

    def setncattr(self, n, v):
        self.attrs[n] = v

    def getncattr(self, n):
        return self.attrs[n]

    def ncattrs(self):
        return list(self.attrs)

    def filepath(self):
        return 'file'

    def createDimension(self, n, size=None):
        if n in self.dimensions:
            raise RuntimeError('NetCDF: String match to name in use')
        self.dimensions[n] = plain(dict(size=size))

    def createVariable(self, n, dtype, dims=(), fill_value=None, **kw):
        v = self.variables[n] = Var(self.lib, None, tuple(dims), fill_value)
        return v

    # h5py
    def create_dataset(self, n, shape=None, dtype=None, data=None, fillvalue=None, **kw):
        v = self.variables[n] = Var(self.lib, data.copy() if data is not None else self.lib.np.zeros(shape), None, fillvalue)
        return v

    def __contains__(self, n):
        return n in self.variables

    def __getitem__(self, n):
        return self.variables[n]

    def keys(self):
        return self.variables.keys()

    def items(self):
        return self.variables.items()

    def close(self):
        self.__dict__['closed'] = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def library(w, fmt, nan):
    """the library of a format, with one file"""
    lib = plain(dict(np=w.np, hdf=fmt == 'HDF5', nan=nan, file=None, opened=[]))

    def opener(name, mode='r', **kw):
        lib.opened.append((name, mode))
        if mode == 'w':
            lib.file = File(lib)
        lib.file.__dict__['closed'] = False
        return lib.file
    if lib.hdf:
        w.stub('pyTMD.spatial.h5py', plain(dict(File=opener)))
    else:
        w.stub('pyTMD.spatial.netCDF4', plain(dict(Dataset=opener)))
    return lib


FILL = {'none': None, 'number': -9999.0, 'zero': 0.0, 'nan': float('nan')}
EXT = {'netCDF4': '.nc', 'HDF5': '.h5', 'ascii': '.csv', 'GTiff': '.tif', 'cog': '.tif', 'parquet': '.parquet'}


def same_attrs(w, got, want):
    for k, a in want.items():
        for n, v in a.items():
            g = got[k].get(n)
            w.true('attribute ' + n, g is not None and (g == v or (g != g and v != v)))


def spatial_data(w, kind, fill, names):
    """coordinates and values of a kind of data, with attributes; values that are missing
    have the fill value"""
    np = w.np
    nt = w.dim('nt', lo=1)
    t, y, x, v = names
    if kind == 'drift':
        dims = {t: (nt,), y: (nt,), x: (nt,), v: (nt,)}
    elif kind == 'grid':
        ny, nx = w.dim('ny', lo=1), w.dim('nx', lo=1)
        dims = {y: (ny,), x: (nx,), t: (nt,), v: (ny, nx, nt)}
    else:
        ns = w.dim('ns', lo=1)
        dims = {y: (ns,), x: (ns,), t: (nt,), v: (ns, nt)}
    out = {k: w.array(k, d, lo=-180, hi=180, nan=(k == v and fill == 'nan')) for k, d in dims.items()}
    attrs = {k: {'units': 'units of ' + k, 'long_name': 'Name_of_' + k} for k in out}
    attrs[t]['calendar'] = 'standard'
    if fill != 'none':
        attrs[v]['_FillValue'] = FILL[fill]
    if not w.symbolic:
        if fill != 'none':
            for p in np.ndindex(*out[v].shape):
                if w.rng.random() < 0.3:
                    out[v][p] = FILL[fill]
        ks = list(out)
        w.rng.shuffle(ks)
        out = {k: out[k] for k in ks}
    return out, attrs, dims


def missing(w, a, fill):
    np = w.np
    if fill == 'none':
        return np.zeros(np.shape(a), dtype=bool)
    return np.isnan(a) if fill == 'nan' else a == FILL[fill]


NC_DIMS = {'drift': {'t': ('time',), 'y': ('time',), 'x': ('time',), 'v': ('time',)},
           'grid': {'t': ('time',), 'y': ('y',), 'x': ('x',), 'v': ('y', 'x', 'time')},
           'time series': {'t': ('time',), 'y': ('station',), 'x': ('station',), 'v': ('station', 'time')}}


def check_read(w, got, out, attrs, names, fill):
    """what is read is what was written"""
    np = w.np
    for key, k in zip(('time', 'y', 'x', 'data'), names):
        w.shape_eq(key + ': shape', got[key], np.shape(out[k]))
        if key == 'data' and fill != 'none':
            bad = missing(w, out[k], fill)
            w.eq('mask', w.mask(got[key]), bad)
            w.eq('data', w.data(got[key]), out[k], where=~bad)
            f = got[key].fill_value
            w.true('fill value', f == FILL[fill] or (fill == 'nan' and f != f))
        else:
            w.eq(key, w.data(got[key]), out[k])
            w.true(key + ': nothing is masked', ~w.mask(got[key]))
    same_attrs(w, got['attributes'], {key: attrs[k] for key, k in zip(('time', 'y', 'x', 'data'), names)})


@contract('P25', 'netCDF4 and HDF5 files', functions=['spatial.to_netCDF4', 'spatial.from_netCDF4', 'spatial._drift_netCDF4', 'spatial._grid_netCDF4', 'spatial._time_series_netCDF4', 'spatial.to_HDF5', 'spatial.from_HDF5', 'spatial.to_file', 'spatial.from_file', 'spatial._is_fill'],
          params=[p for p in product(fmt=['netCDF4', 'HDF5'], kind=['drift', 'grid', 'time series'], fill=['none', 'number', 'zero', 'nan'], names=['default', 'mapping'], again=[0]) if p['fill'] != 'zero' or p['names'] == 'default'] + product(fmt=['netCDF4', 'HDF5'], kind=['drift', 'grid', 'time series'], fill=['number'], names=['default'], again=[1]), assumes=LIB, trials=3)
def round_trip(w, fmt, kind, fill, names, again):
    """variables read as they were written, with their attributes, and masked where they
    have the fill value; the inputs stay as they are, so a second file has the same"""
    np = w.np
    names = ('time', 'lat', 'lon', 'data') if names == 'default' else ('time', 'latitude', 'longitude', 'tide_ocean')
    out, attrs, dims = spatial_data(w, kind, fill, names)
    attrs['ROOT'] = {'title': 'A title', 'description': 'What it is'}
    out['scale'] = np.float64(2.5) if w.symbolic else np.asarray(w.rng.uniform(1, 9))
    attrs['scale'] = {'units': '1'}
    snap = w.snapshot(*[out[k] for k in names])
    before, keys = copy.deepcopy(attrs), list(out)
    to, back = w.get('pyTMD.spatial.to_file'), w.get('pyTMD.spatial.from_file')
    kw = dict(data_type=kind) if fmt == 'netCDF4' else {}
    lib = library(w, fmt, fill == 'nan')
    if names == ('time', 'lat', 'lon', 'data'):
        mapping = {}
    elif w.symbolic or w.rng.random() < 0.5:
        mapping = dict(field_mapping={k: n for k, n in zip(('time', 'y', 'x', 'data'), names)})
    else:
        mapping = dict(timename=names[0], yname=names[1], xname=names[2], varname=names[3])
    with scratch() as d:
        f = os.path.join(d, 'File' + EXT[fmt])
        if w.symbolic:
            open(f, 'w').close()
        to(out, attrs, f, format=fmt, **kw)
        if again:
            # what is written in a second file, or over the variables of this one
            if w.symbolic or w.rng.random() < 0.5:
                to(out, attrs, f, format=fmt, mode='a', **kw)
            else:
                f = os.path.join(d, 'Other' + EXT[fmt])
                to(out, attrs, f, format=fmt, **kw)
        if w.symbolic:
            w.true('written file', [(str(n), m) for n, m in lib.opened] == [(f, 'w'), (f, 'a')][:1 + again])
            w.true('closed', lib.file.closed)
            got = back(f, fmt, **mapping)
            w.true('read file', [(str(n), m) for n, m in lib.opened[1 + again:]] == [(f, 'r')])
            w.true('closed', lib.file.closed)
            vs = {k: v.dims for k, v in lib.file.variables.items()}
            w.true('scalar', lib.file.variables['scale'].value == 2.5)
            sizes = {k: v.size for k, v in lib.file.dimensions.items()}
            w.true('title', lib.file.attrs['title'] == 'A title')
        else:
            how = w.rng.choice([None, None, 'gzip', 'bytes', 'case'])
            g = f
            if how == 'gzip':
                with open(f, 'rb') as a, gzip.open(f + '.gz', 'wb') as b:
                    b.write(a.read())
                g = f + '.gz'
                mapping['compression'] = how
            elif how == 'case':
                g = os.path.join(d, os.path.basename(f).swapcase())
            if w.rng.random() < 0.5:
                import pathlib
                g = pathlib.Path(g)
            if how == 'bytes':
                with open(f, 'rb') as g:
                    got = back(g, fmt, compression='bytes', **mapping)
            else:
                got = back(g, fmt, **mapping)
            vs = sizes = None
            if fmt == 'netCDF4':
                import netCDF4
                with netCDF4.Dataset(f) as nc:
                    vs = {k: v.dimensions for k, v in nc.variables.items()}
                    sizes = {k: v.size for k, v in nc.dimensions.items()}
                    w.true('scalar', float(nc['scale'][...]) == float(out['scale']))
            else:
                import h5py
                with h5py.File(f, 'r') as h:
                    w.true('scalar', float(h['scale'][()]) == float(out['scale']))
                    w.true('variables', sorted(h.keys()) == sorted(keys))
    check_read(w, got, out, attrs, names, fill)
    w.true('title that is read', got['attributes']['title'] == 'A title')
    w.true('description that is read', got['attributes']['description'] == 'What it is')
    if fmt == 'netCDF4':
        w.true('variables', sorted(vs) == sorted(keys))
        for c, k in zip('tyxv', names):
            w.true('dimensions of ' + c, tuple(vs[k]) == NC_DIMS[kind][c])
            for n, s in zip(vs[k], dims[k]):
                w.true('size of a dimension', sizes[n] == w.size(s))
        w.true('dimensions of a scalar', tuple(vs['scale']) == ())
    w.unchanged('inputs', snap)
    w.true('inputs keep their keys', list(out) == keys)
    w.true('attributes stay', repr(attrs) == repr(before))


PROJ = {'crs_wkt': 'WKT of the projection', 'grid_mapping_name': 'polar_stereographic'}


@contract('P25', 'groups, projections and fields that are read', functions=['spatial.from_netCDF4', 'spatial.from_HDF5'], params=product(fmt=['netCDF4', 'HDF5'], group=[False, True], crs=[False, True], fields=['all', 'no data', 'no time', 'some']), assumes=LIB + ('projections by their well known text (osgeo.osr)',), trials=4)
def groups(w, fmt, group, crs, fields):
    """variables come from the group that is asked for, only those that are asked for;
    the projection is that of the variable with the grid mapping"""
    np = w.np
    n = w.dim('n', lo=1)
    names = ['time', 'lat', 'lon', 'h']
    values = {g: {k: w.array('%s of %s' % (k, g), (n,)) for k in names} for g in ('root', 'group')}
    where = 'group' if group else 'root'
    kw = {'all': dict(varname='h'), 'no data': dict(varname=None), 'no time': dict(varname='h', timename=None), 'some': dict(field_mapping=dict(data='h', y='lon', segment='time'))}[fields]
    want = {'all': dict(time='time', y='lat', x='lon', data='h'), 'no data': dict(time='time', y='lat', x='lon'), 'no time': dict(y='lat', x='lon', data='h'), 'some': dict(data='h', y='lon', segment='time')}[fields]
    kw = copy.deepcopy(kw)
    if group:
        kw['group'] = 'gt1l'
    back = w.get('pyTMD.spatial.from_' + fmt)
    standard = {'time': 'time', 'lat': 'latitude', 'lon': 'longitude', 'h': 'height'}
    if w.symbolic:
        lib = library(w, fmt, False)
        files = {g: File(lib) for g in values}
        for g, v in values.items():
            for k, a in v.items():
                x = files[g].variables[k] = Var(lib, a)
                x.attrs.update({'standard_name': standard[k], 'units': 'units of ' + g, 'other': 'not wanted'})
            if crs:
                files[g].variables['h'].attrs['grid_mapping'] = 'Polar'
                x = files[g].variables['Polar'] = Var(lib, None)
                x.attrs.update(PROJ if g == where else {'crs_wkt': 'another'})
        lib.file = files['root']
        lib.file.groups['gt1l'] = files['group']
        lib.file.variables['gt1l'] = files['group']
        lib.file.attrs.update({'title': 'T', 'projection': 'P'})
        seen = []

        class Ref:
            def ImportFromWkt(self, s):
                seen.append(s)

            def ExportToProj4(self):
                return '+proj of ' + seen[-1]
        w.stub('pyTMD.spatial.osgeo', plain(dict(osr=plain(dict(UseExceptions=lambda: None, SpatialReference=Ref)))))
        with scratch() as d:
            f = os.path.join(d, 'a' + EXT[fmt])
            open(f, 'w').close()
            got = back(f, **kw)
        w.true('closed', lib.file.closed)
        proj = '+proj of ' + PROJ['crs_wkt']
        attrs = PROJ
    else:
        from osgeo import osr
        osr.UseExceptions()
        refs = []
        for code in (3031, 3413):
            s = osr.SpatialReference()
            s.ImportFromEPSG(code)
            refs.append(s)
        if w.rng.random() < 0.5:
            refs.reverse()
        proj = refs[0].ExportToProj4()
        attrs = {'crs_wkt': refs[0].ExportToWkt(), 'grid_mapping_name': 'polar_stereographic'}
        with scratch() as d:
            f = os.path.join(d, 'a' + EXT[fmt])
            if fmt == 'netCDF4':
                import netCDF4
                fid = netCDF4.Dataset(f, 'w')
                put = lambda o, n, v: o.setncattr(n, v)
            else:
                import h5py
                fid = h5py.File(f, 'w')
                put = lambda o, n, v: o.attrs.__setitem__(n, v)
            with fid:
                for g, v in values.items():
                    to = fid if g == 'root' else fid.createGroup('gt1l') if fmt == 'netCDF4' else fid.create_group('gt1l')
                    if fmt == 'netCDF4':
                        to.createDimension('n', n)
                    for k, a in v.items():
                        if fmt == 'netCDF4':
                            x = to.createVariable(k, a.dtype, ('n',))
                            x[:] = a
                        else:
                            x = to.create_dataset(k, data=a)
                        for m, s in {'standard_name': standard[k], 'units': 'units of ' + g, 'other': 'not wanted'}.items():
                            put(x, m, s)
                        if crs and k == 'h':
                            put(x, 'grid_mapping', 'Polar')
                    if crs:
                        x = to.createVariable('Polar', 'i4', ()) if fmt == 'netCDF4' else to.create_dataset('Polar', data=0)
                        for m, s in (attrs if g == where else {'crs_wkt': refs[1].ExportToWkt()}).items():
                            put(x, m, s)
                put(fid, 'title', 'T')
                put(fid, 'projection', 'P')
            got = back(f, **kw)
    w.true('fields', sorted(k for k in got if k != 'attributes') == sorted(want))
    for key, k in want.items():
        w.shape_eq(key + ': shape', got[key], (n,))
        w.eq(key, w.data(got[key]), values[where][k])
        a = got['attributes'][key]
        w.true('attributes', a['standard_name'] == standard[k] and a['units'] == 'units of ' + where and 'other' not in a)
    a = got['attributes']
    w.true('title', a['title'] == 'T')
    if crs and 'data' in want:
        w.true('projection', a['projection'] == proj)
        w.true('attributes of the projection', dict(a['crs']) == attrs)
    else:
        w.true('projection', a['projection'] == 'P' and 'crs' not in a)


# ------------------------------------------------------------------ text files
def numerals(w, v, fortran):
    """a number as text"""
    s = w.rng.choice([repr(float(v)), '%.17g' % v, '%+.17e' % v, '%.17E' % v])
    if fortran:
        s = s.replace('e', 'D').replace('E', 'D')
    return s


@contract('P25', 'text files', functions=['spatial.to_ascii', 'spatial.from_ascii', 'spatial.to_file', 'spatial.from_file'], params=product(header=['none', 'YAML'], delimiter=['comma', 'other', 'none'], fill=['none', 'number', 'zero', 'nan']), bounded=True, trials=6)
def text_round_trip(w, header, delimiter, fill):
    """each column reads as it was written, to the last digit"""
    np = w.np
    n = w.rng.randint(1, 12)
    # the column of the data is known as data when it is read
    names = ['time', 'y', 'x', 'data'] + w.rng.sample(['e1', 'd2', 'Depth'], w.rng.randint(0, 2))
    w.rng.shuffle(names)
    out = {k: np.array([w.rng.uniform(-1, 1) * 10.0 ** w.rng.randint(-30, 30) if w.rng.random() < 0.7 else float(w.rng.randint(-400, 400)) for _ in range(n)]) for k in names}
    if w.rng.random() < 0.3:
        out['time'] = np.arange(n) + w.rng.randint(0, 10 ** 6)
    if fill != 'none' and not (fill == 'nan' and delimiter == 'none'):
        for i in range(n):
            if w.rng.random() < 0.4:
                out['data'][i] = FILL[fill]
    attrs = {k: {'long_name': 'Name_of_' + k, 'units': 'meters'} for k in names}
    attrs['time']['units'] = 'seconds since 2018-01-01T00:00:00'
    if fill != 'none':
        attrs['data']['_FillValue'] = '.nan' if fill == 'nan' and w.rng.random() < 0 else FILL[fill]
    sep = {'comma': ',', 'other': w.rng.choice([' ', ';', '\t', ', ']), 'none': None}[delimiter]
    snap, before = {k: v.copy() for k, v in out.items()}, copy.deepcopy(attrs)
    kw = dict(columns=list(names), header=header == 'YAML')
    if sep != ',' or w.rng.random() < 0.5:
        kw['delimiter'] = sep or w.rng.choice([' ', ', ', '  '])
    with scratch() as d:
        f = os.path.join(d, 'a.csv')
        w.get('pyTMD.spatial.to_file')(out, attrs, f, 'ascii', **kw)
        how = w.rng.choice([None, 'gzip', 'bytes', 'text'])
        kw = dict(columns=list(names))
        if header == 'YAML':
            kw['header'] = w.rng.choice(['YAML', 'yaml'])
        if sep != ',':
            kw['delimiter'] = sep
        back = w.get('pyTMD.spatial.from_file')
        if how == 'gzip':
            with open(f, 'rb') as a, gzip.open(f + '.gz', 'wb') as b:
                b.write(a.read())
            got = back(f + '.gz', 'ascii', compression='gzip', **kw)
        elif how:
            with open(f, 'rb') if how == 'bytes' else open(f) as g:
                got = back(g, 'ascii', compression='bytes', **kw)
        else:
            got = back(f, 'ascii', **kw)
        w.true('columns stay', kw['columns'] == names)
    w.true('fields', sorted(k for k in got if k != 'attributes') == sorted(names))
    masked = header == 'YAML' and fill != 'none'
    for k in names:
        w.shape_eq('shape', got[k], (n,))
        bad = missing(w, out[k], fill) if k == 'data' and masked else np.zeros(n, dtype=bool)
        if k == 'data' and masked:
            w.true('mask', bool(np.all(w.mask(got[k]) == bad)))
        w.true('values', bool(np.all((np.asarray(w.data(got[k])) == np.asarray(out[k], dtype=float)) | bad | (np.isnan(out[k]) & np.isnan(w.data(got[k]))))))
        if header == 'YAML':
            w.true('attributes', all(got['attributes'][k][a] == v for a, v in attrs[k].items() if a != '_FillValue'))
    w.true('inputs', all(np.array_equal(snap[k], out[k], equal_nan=True) for k in names) and list(out) == list(snap))
    w.true('attributes stay', repr(attrs) == repr(before))


@contract('P25', 'columns of text files', functions=['spatial.from_ascii'], params=product(delimiter=['comma', 'none'], dates=[False, True], compression=[None, 'gzip', 'bytes']), bounded=True, trials=6)
def text_columns(w, delimiter, dates, compression):
    """numbers of each column in any notation, after the lines of the header"""
    np = w.np
    if dates and delimiter == 'none':
        dates = False
    n, skip = w.rng.randint(1, 12), w.rng.randint(0, 3)
    columns = ['time', 'y', 'x', 'data']
    if w.rng.random() < 0.5:
        w.rng.shuffle(columns)
    V = {c: [w.rng.choice([w.rng.uniform(-400, 400), float(w.rng.randint(-9, 9)), w.rng.uniform(-1, 1) * 1e-9, w.rng.uniform(-1, 1) * 1e12]) for _ in range(n)] for c in columns}
    T = [datetime.datetime(w.rng.randint(1980, 2040), w.rng.randint(1, 12), w.rng.randint(1, 28), w.rng.randint(0, 23), w.rng.randint(0, 59), w.rng.randint(0, 59)) for _ in range(n)]
    form = w.rng.choice(['%Y-%m-%dT%H:%M:%S', '%Y-%m-%d %H:%M:%S', '%d %b %Y %H:%M:%S', '%Y/%m/%d %H:%M:%S'])
    fortran = w.rng.random() < 0.4
    lines = ['# a header %d, with 1.5 numbers' % i for i in range(skip)]
    extra = w.rng.random() < 0.4
    for i in range(n):
        row = [T[i].strftime(form) if c == 'time' and dates else numerals(w, V[c][i], fortran) for c in columns]
        row += ['17.5'] * extra
        lines.append((',' if delimiter == 'comma' else w.rng.choice(['  ', '\t', ' '])).join(row))
    body = '\n'.join(lines) + '\n' * w.rng.randint(0, 1)
    kw = dict(header=skip) if skip or w.rng.random() < 0.5 else {}
    if columns != ['time', 'y', 'x', 'data'] or w.rng.random() < 0.5:
        kw['columns'] = list(columns)
    if delimiter == 'none':
        kw['delimiter'] = None
    if dates:
        kw['parse_dates'] = True
    back = w.get('pyTMD.spatial.from_ascii')
    with scratch() as d:
        f = os.path.join(d, 'a.txt')
        with gzip.open(f, 'wb') if compression == 'gzip' else open(f, 'wb') as fid:
            fid.write(body.encode())
        if compression == 'bytes':
            got = back(io.BytesIO(body.encode()) if w.rng.random() < 0.5 else io.StringIO(body), compression='bytes', **kw)
        else:
            got = back(f, compression=compression, **kw)
    for c in columns:
        w.shape_eq('shape', got[c], (n,))
        if c == 'time' and dates:
            w.true('dates', bool(np.all(got[c] == np.array(T, dtype='datetime64[ns]'))))
        else:
            w.true('values', bool(np.all(got[c] == np.array(V[c]))))
    w.true('fields', sorted(got) == sorted(columns + ['attributes']))


# ------------------------------------------------------------------- file names
@contract('P25', 'names of files', functions=['spatial.case_insensitive_filename'], params=product(case=['exact', 'other case', 'both', 'missing']), bounded=True, trials=12)
def file_names(w, case):
    """the file of that name, else the one whose name differs by case only"""
    name = ''.join(w.rng.choice('abcXYZ01._-+()[] $^') for _ in range(w.rng.randint(1, 8))).strip('. ') + w.rng.choice(['', '.nc', '.csv', '.h5'])
    name = 'f' + name
    find = w.get('pyTMD.spatial.case_insensitive_filename')
    with scratch() as d:
        d = os.path.realpath(d)
        others = [name + '.gz', name + '_old', 'a' + name, name[:-1], name.replace('.', 'x') + 'y']
        for o in others:
            if o and o.lower() != name.lower():
                open(os.path.join(d, o), 'w').close()
        have = {'exact': [name], 'other case': [name.swapcase()], 'both': [name, name.swapcase()], 'missing': []}[case]
        for o in have:
            open(os.path.join(d, o), 'w').close()
        ask = os.path.join(d, name)
        if w.rng.random() < 0.5:
            import pathlib
            ask = pathlib.Path(ask)
        if case == 'missing':
            w.raises('no such file', FileNotFoundError, lambda: find(ask))
        else:
            w.true('file', str(find(ask)) == os.path.join(d, have[0]))


@contract('P25', 'names of fields', functions=['spatial.default_field_mapping', 'spatial.inverse_mapping', 'spatial.expand_dims'], params=product(n=[0, 2, 3, 4, 5], how=['str', 'list']), trials=2)
def fields(w, n, how):
    """fields in the order time, y, x, data; each name back to its field; grids have a
    band"""
    np = w.np
    names = ['t0', 'lat0', 'lon0', 'v0', 'w0'][:n]
    m = w.get('pyTMD.spatial.default_field_mapping')(names)
    w.true('mapping', m == dict(zip(('time', 'y', 'x', 'data'), names)))
    w.true('inverse', w.get('pyTMD.spatial.inverse_mapping')(m) == dict(zip(names[:4], ('time', 'y', 'x', 'data'))))
    ny, nx, nt = w.dim('ny', lo=1), w.dim('nx', lo=1), w.dim('nt', lo=1)
    A, B, t = w.array('A', (ny, nx)), w.array('B', (ny, nx, nt)), w.real('t')
    obj = dict(A=A, B=B, time=t, other=A)
    r = w.get('pyTMD.spatial.expand_dims')(obj, varname=['A', 'B'] if how == 'list' else 'A')
    w.shape_eq('grid', r['A'], (ny, nx, 1))
    w.eq('values', r['A'][:, :, 0], A)
    w.shape_eq('bands', r['B'], (ny, nx, nt))
    w.eq('values of bands', r['B'], B)
    w.shape_eq('time', r['time'], (1,))
    w.eq('value of time', r['time'][0], t)
    w.shape_eq('another field', r['other'], (ny, nx))
    r = w.get('pyTMD.spatial.expand_dims')(dict(data=A))
    w.shape_eq('data', r['data'], (ny, nx, 1))


# --------------------------------------------------------------------- images
GDAL = ('images as bands of pixels with a geotransform, a projection and a value without data; a window of an image is that part of each band (osgeo.gdal)',)


class Band:
    def __init__(self):
        self.nodata, self.value = None, None

    def SetNoDataValue(self, v):
        self.nodata = v

    def GetNoDataValue(self):
        return self.nodata

    def WriteArray(self, a):
        self.value = a.copy()


class Image:
    def __init__(self, np, nx, ny, nb):
        self.np, self.RasterXSize, self.RasterYSize, self.RasterCount = np, nx, ny, nb
        self.bands = [Band() for _ in range(nb)]
        self.transform = self.wkt = None
        self.flushed = False

    def GetRasterBand(self, i):
        if i < 1:
            raise IndexError('bands from one')
        return self.bands[i - 1]

    def SetGeoTransform(self, t):
        self.transform = tuple(t)

    def GetGeoTransform(self):
        return self.transform

    def SetProjection(self, s):
        self.wkt = s

    def GetSpatialRef(self):
        return plain(dict(ExportToProj4=lambda: 'proj of ' + self.wkt, ExportToWkt=lambda: self.wkt))

    def FlushCache(self):
        self.flushed = True

    def ReadAsArray(self, xoff=0, yoff=0, xsize=None, ysize=None):
        xsize = self.RasterXSize if xsize is None else xsize
        ysize = self.RasterYSize if ysize is None else ysize
        bs = [b.value[yoff:yoff + ysize, xoff:xoff + xsize].copy() for b in self.bands]
        return bs[0] if len(bs) == 1 else self.np.stack(bs, axis=0)


def stub_gdal(w, images):
    """GDAL with the images of the file names"""
    def driver(name):
        def create(f, nx, ny, nb, dtype=None, options=None):
            if name == 'cog':
                raise RuntimeError('no create method implemented for this format')
            im = Image(w.np, nx, ny, nb)
            images[f] = im
            im.driver, im.dtype, im.options = name, dtype, options
            return im

        def copied(f, im, *a, options=None, **k):
            images[f] = im
            im.driver, im.options = name, options
            return im
        return plain(dict(Create=create, CreateCopy=copied, GetMetadataItem=lambda n: None if name == 'cog' and n == 'DCAP_CREATE' else 'YES'))

    class Ref:
        def ImportFromWkt(self, s):
            self.s = s

        def ExportToWkt(self):
            return self.s

    def opened(f, *a):
        return images[f]

    def memory(f, b):
        images[f] = images[b]
    gdal = plain(dict(GetDriverByName=driver, Open=opened, GDT_Float64=7, GDT_Float32=6, DCAP_CREATE='DCAP_CREATE', FileFromMemBuffer=memory, GA_ReadOnly=0))
    w.stub('pyTMD.spatial.osgeo', plain(dict(gdal=gdal, gdalconst=plain(dict(GA_ReadOnly=0)), osr=plain(dict(UseExceptions=lambda: None, SpatialReference=Ref)))))


@contract('P25', 'images', functions=['spatial.to_geotiff', 'spatial.from_geotiff', 'spatial.expand_dims', 'spatial.to_file', 'spatial.from_file', 'spatial._is_fill'],
          params=product(format=['GTiff', 'cog', 'default'], bands=[0, 1, 2], fill=['none', 'number', 'zero', 'nan'], bounds=[False]) + product(format=['GTiff'], bands=[0, 2], fill=['none', 'number'], bounds=[True]), assumes=GDAL, tol=1e-9, trials=3)
def images(w, format, bands, fill, bounds):
    """each pixel has the value and the coordinates that were written; a window of the
    image is that part of it, from the pixel of its upper left corner on"""
    np = w.np
    nx, ny = w.dim('nx', lo=1), w.dim('ny', lo=1)
    data = w.array('data', (ny, nx) + ((bands,) if bands else ()), lo=-90, hi=90, nan=fill == 'nan')
    if not w.symbolic and fill != 'none':
        for p in np.ndindex(*data.shape):
            if w.rng.random() < 0.3:
                data[p] = FILL[fill]
    x0, y0 = w.real('x0', lo=-1000, hi=1000), w.real('y0', lo=-1000, hi=1000)
    dx, dy = w.real('dx', lo=0.25, hi=20), w.real('dy', lo=0.25, hi=20)
    w.assume(dx > 0)
    w.assume(dy > 0)
    name = 'data' if format == 'default' else 'tide'
    out = {name: data, 'time': w.array('time', (max(bands, 1),))}
    attrs = {name: {} if fill == 'none' else {'_FillValue': FILL[fill]}, 'extent': (x0, x0 + w.size(nx) * dx, y0 - w.size(ny) * dy, y0), 'spacing': (dx, -dy)}
    if w.symbolic:
        attrs['wkt'] = 'WKT'
    else:
        from osgeo import osr
        osr.UseExceptions()
        s = osr.SpatialReference()
        s.ImportFromEPSG(w.rng.choice([3031, 3413, 4326]))
        attrs['wkt'] = s.ExportToWkt()
    before = repr(attrs)
    snap = w.snapshot(data)
    kw = {} if format == 'default' else dict(varname='tide', driver=format)
    rd = {}
    if bounds:
        # a window of the image: its corner and its size
        if w.symbolic:
            xl, xr, yl, yu = (w.real(k) for k in ('xl', 'xr', 'yl', 'yu'))
            for e in ((xl - x0) / dx, (y0 - yu) / dy, (xr - xl) / dx, (yu - yl) / dy):
                w.assume(e >= 0)
            ox, oy, cx, cy = (w.floor(e).args[0] for e in ((xl - x0) / dx, (y0 - yu) / dy, (xr - xl) / dx, (yu - yl) / dy))
            cx, cy = cx + 1, cy + 1
            w.assume(ox + cx <= w.size(nx))
            w.assume(oy + cy <= w.size(ny))
        else:
            ox, oy = w.rng.randrange(nx), w.rng.randrange(ny)
            cx, cy = w.rng.randint(1, nx - ox), w.rng.randint(1, ny - oy)
            fx, fy, gx, gy = (w.rng.uniform(0.1, 0.9) for _ in range(4))
            xl, yu = x0 + (ox + fx) * dx, y0 - (oy + fy) * dy
            xr, yl = xl + (cx - 1 + gx) * dx, yu - (cy - 1 + gy) * dy
        rd['bounds'] = [xl, xr, yl, yu]
    else:
        ox = oy = 0
        cx, cy = w.size(nx), w.size(ny)
    to, back = w.get('pyTMD.spatial.to_file'), w.get('pyTMD.spatial.from_file')
    f0 = 'GTiff' if format == 'default' else format
    with scratch() as d:
        f = os.path.join(d, 'a.tif')
        if w.symbolic:
            ims = {}
            stub_gdal(w, ims)
            open(f, 'w').close()
            to(out, attrs, f, f0, **kw)
            im = ims[f]
            w.true('driver', im.driver == ('cog' if format == 'default' else format))
            w.true('type of the numbers', im.dtype in (7, None))
            w.true('flushed', im.flushed)
            got = back(f, f0, **rd)
            nodata = [b.nodata for b in im.bands]
        else:
            to(out, attrs, f, f0, **kw)
            how = w.rng.choice([None, None, 'gzip', 'bytes'])
            if how == 'gzip':
                with open(f, 'rb') as a, gzip.open(f + '.gz', 'wb') as b:
                    b.write(a.read())
                got = back(f + '.gz', f0, compression=how, **rd)
            elif how:
                with open(f, 'rb') as g:
                    got = back(g, f0, compression=how, **rd)
            else:
                got = back(f, f0, **rd)
            from osgeo import gdal
            gdal.UseExceptions()
            ds = gdal.Open(f)
            nodata = [ds.GetRasterBand(i + 1).GetNoDataValue() for i in range(ds.RasterCount)]
            ds = None
    nb = max(bands, 1)
    w.true('value without data', all((v is None) if fill == 'none' else (v == FILL[fill] or (fill == 'nan' and v != v)) for v in nodata) and len(nodata) == nb)
    w.shape_eq('x: shape', got['x'], (cx,))
    w.shape_eq('y: shape', got['y'], (cy,))
    w.eq('x', got['x'], x0 + (ox + np.arange(cx) + 0.5) * dx)
    w.eq('y', got['y'], y0 - (oy + np.arange(cy) + 0.5) * dy)
    w.shape_eq('time: shape', got['time'], (nb,))
    w.true('time', got['time'] == 0)
    r = got['data']
    w.shape_eq('shape', r, ((nb,) if nb > 1 else ()) + (cy, cx))
    for b in range(nb):
        z = data[:, :, b] if bands else data
        z = z[oy:oy + cy, ox:ox + cx]
        bad = missing(w, z, fill)
        g = r[b] if nb > 1 else r
        w.eq('mask', w.mask(g), bad)
        w.eq('values', w.data(g), z, where=~bad)
    a = got['attributes']
    w.eq('spacing', a['spacing'][0], dx)
    w.eq('spacing', a['spacing'][1], -dy)
    w.eq('extent: left', a['extent'][0], x0 + ox * dx)
    w.eq('extent: top', a['extent'][3], y0 - oy * dy)
    w.eq('extent: right', a['extent'][1], x0 + (ox + cx - 1) * dx)
    w.eq('extent: bottom', a['extent'][2], y0 - (oy + cy - 1) * dy)
    if fill != 'none':
        v = a['data']['_FillValue']
        w.true('fill value', v == FILL[fill] or (fill == 'nan' and v != v))
    if w.symbolic:
        w.true('projection', a['wkt'] == 'WKT' and a['projection'] == 'proj of WKT')
    else:
        s2 = osr.SpatialReference()
        s2.ImportFromWkt(a['wkt'])
        w.true('projection', bool(s2.IsSame(s)) and a['projection'] == s.ExportToProj4())
    w.unchanged('inputs', snap)
    w.true('inputs keep their keys', list(out) == [name, 'time'] and out[name] is data)
    w.true('attributes stay', repr(attrs) == before)


# ---------------------------------------------------------------- parquet files
@contract('P25', 'parquet files', functions=['spatial.to_parquet', 'spatial.from_parquet', 'spatial.to_file', 'spatial.from_file'], params=product(geo=[False, True], crs=[None, 'code', 'json']), bounded=True, trials=6)
def parquet(w, geo, crs):
    """columns read as they were written, points as their coordinates, with the projection
    and attributes of the file"""
    np = w.np
    from osgeo import osr
    import pandas
    osr.UseExceptions()
    n = w.rng.randint(1, 12)
    names = w.rng.choice([('time', 'y', 'x', 'data'), ('time', 'lat', 'lon', 'tide'), ('time', 'latitude', 'longitude', 'tide')])
    t, y, x, v = names
    out = {k: np.array([w.rng.uniform(-1, 1) * 10.0 ** w.rng.randint(-9, 9) for _ in range(n)]) for k in names}
    ks = list(out)
    w.rng.shuffle(ks)
    out = {k: out[k] for k in ks}
    if w.rng.random() < 0.5:
        out['other'] = np.arange(n)
    index = not geo and w.rng.random() < 0.4
    attrs = {k: {'long_name': 'Name of ' + k, 'units': 'm'} for k in out}
    attrs['title'] = 'A title'
    snap, before = {k: a.copy() for k, a in out.items()}, copy.deepcopy(attrs)
    kw = {}
    s = osr.SpatialReference()
    code = w.rng.choice([3031, 3413, 4326])
    s.ImportFromEPSG(code)
    if crs == 'code':
        kw['crs'] = code
    elif crs == 'json':
        kw['crs'] = json.loads(s.ExportToPROJJSON())
    if geo:
        kw['geoparquet'] = True
        if w.rng.random() < 0.5:
            kw['primary_column'] = 'points'
    if w.rng.random() < 0.3:
        kw['compression'] = 'gzip'
    data = out
    if index:
        # times as the index of a table
        data = pandas.DataFrame({k: a for k, a in out.items() if k != t}, index=pandas.Index(out[t], name=None))
    rd = {}
    if w.rng.random() < 0.6 or (not geo and 'x' not in out):
        rd['columns'] = list(names) + (['other'] if 'other' in out else [])
    with scratch() as d:
        f = os.path.join(d, 'a.parquet')
        w.get('pyTMD.spatial.to_file')(data, attrs, f, 'parquet', **kw)
        got = w.get('pyTMD.spatial.from_file')(f, 'parquet', **rd)
    field = dict(zip(names, ('time', 'y', 'x', 'data'))) if 'columns' in rd else {}
    for k, a in out.items():
        c = {y: 'y', x: 'x'}.get(k) if geo else None
        g = got[c or field.get(k, k)]
        w.true('length', len(g) == n)
        w.true(k, bool(np.array_equal(np.asarray(g), a)))
    A = got.attrs
    w.true('geometry', A['geoparquet'] is geo)
    w.true('attributes', all(A['pyTMD'][k] == before[k] for k in before if not (geo and k in (x, y))))
    if crs:
        s2 = osr.SpatialReference()
        s2.ImportFromWkt(A['wkt'])
        w.true('projection', bool(s2.IsSame(s)) and A['projection'] == s.ExportToProj4())
    else:
        w.true('no projection', 'wkt' not in A)
    if geo:
        g = A['geo']
        w.true('bounds', np.allclose(g['columns'][g['primary_column']]['bbox'], [min(out[x]), min(out[y]), max(out[x]), max(out[y])], rtol=1e-15))
        w.true('column of points', g['primary_column'] == kw.get('primary_column', 'geometry') and g['primary_column'] in got.columns)
    w.true('inputs', all(np.array_equal(snap[k], out[k]) for k in out) and list(out) == list(snap))
    w.true('attributes stay', repr(attrs) == repr(before))
