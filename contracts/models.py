"""Model database, definition files and dispatch to the readers: io/model.py"""
import inspect
import io
import json
import os
import pathlib
import tempfile
from pyvc.contract import contract, product

M = 'io.model.model.'
FORMATS = ['OTIS', 'ATLAS-compact', 'TMD3', 'ATLAS-netcdf', 'GOT-ascii', 'GOT-netcdf', 'FES-ascii', 'FES-netcdf']


def database():
    with open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'pyTMD/data/database.json')) as fid:
        return json.load(fid)


def files(entry):
    """files of an entry: grid, then model files by type"""
    mf = entry['model_file']
    g = list(mf.values()) if isinstance(mf, dict) else [mf]
    out = [entry['grid_file']] if 'grid_file' in entry else []
    for x in g:
        out += x if isinstance(x, list) else [x]
    return out


def placed(x, d, gz=''):
    if isinstance(x, dict):
        return {k: placed(v, d, gz) for k, v in x.items()}
    if isinstance(x, list):
        return [placed(v, d, gz) for v in x]
    return pathlib.Path(d) / (x + gz)


@contract('P23', 'database', functions=[M + n for n in ('elevation', 'current', 'pathfinder', 'from_dict', 'parse_constituents', 'parse_file', 'validate_format', 'gzip', '__init__')] + ['io.model.load_database'],
          params=product(kind=['elevation', 'current'], compressed=[False, True]), trials=1)
def models(w, kind, compressed):
    """every model of the database is its entry: attributes, files under the
    working directory (compressed or not), constituents in the order of its files;
    constructing one model does not change another"""
    cls = w.get('pyTMD.io.model.model')
    parse = w.get('pyTMD.io.constituents.constituents.parse')
    db = database()[kind]
    d = pathlib.Path('/verif-scratch/tides')
    gz = '.gz' if compressed else ''
    for again in range(2):
        for name, e in db.items():
            m = getattr(cls(d, compressed=compressed, verify=False), kind)(name)
            w.true(name + ': gzip', m.gzip == gz and m.compressed == compressed)
            for k, v in e.items():
                if k in ('grid_file', 'model_file'):
                    w.true(name + ': ' + k, m[k] == placed(v, d, gz))
                else:
                    w.true(name + ': ' + k, m[k] == v)
            w.true(name + ': grid', 'grid_file' in e or m.grid_file is None)
            if e['format'].startswith('FES'):
                mf = e['model_file']
                for g in (mf.values() if isinstance(mf, dict) else [mf]):
                    w.true(name + ': constituents', m.constituents == [parse(os.path.basename(f)) for f in g])
            # a model belongs to its user
            if isinstance(m.model_file, list):
                m.model_file.append('other')
            elif isinstance(m.model_file, dict):
                m.model_file.clear()
    w.true('models', len(db) > 20)
    for name in ('unknown', 'GOT4.7_unknown', ''):
        w.raises('unlisted', ValueError, lambda: getattr(cls(d, verify=False), kind)(name))
    w.raises('only in the other list', ValueError, lambda: getattr(cls(d, verify=False), kind)('FES2014_load' if kind == 'current' else 'unknown'))
    # additional databases
    with tempfile.TemporaryDirectory() as tmp:
        p = os.path.join(tmp, 'extra.json')
        new = dict(name='New', format='GOT-netcdf', type='z', model_file=['a/m2.nc', 'a/s2.nc'], scale=0.5, variable='tide_ocean', version='1')
        if kind == 'current':
            new.update(format='FES-netcdf', type=['u', 'v'], model_file={'u': ['u/m2.nc'], 'v': ['v/m2.nc']})
        with open(p, 'w') as fid:
            json.dump({kind: {'New': new}}, fid)
        m = getattr(cls(d, compressed=compressed, verify=False), kind)('New', extra_databases=[p])
        w.true('additional', m.model_file == placed(new['model_file'], d, gz) and m.scale == 0.5 and m.name == 'New')


@contract('P23', 'files exist', functions=[M + n for n in ('elevation', 'current', 'pathfinder')], params=product(kind=['elevation', 'current'], compressed=[False, True]), trials=1)
def exist(w, kind, compressed):
    """models are only constructed when all of their files exist"""
    cls = w.get('pyTMD.io.model.model')
    gz = '.gz' if compressed else ''
    db = database()[kind]
    seen = set()
    for name, e in db.items():
        key = (e['format'], isinstance(e['model_file'], list), isinstance(e['model_file'], dict) and len(e['model_file']))
        if key in seen:
            continue
        seen.add(key)
        with tempfile.TemporaryDirectory() as tmp:
            paths = [pathlib.Path(tmp) / (f + gz) for f in dict.fromkeys(files(e))]
            for p in paths:
                p.parent.mkdir(parents=True, exist_ok=True)
                p.touch()
            get = lambda **k: getattr(cls(tmp, compressed=compressed, **k), kind)(name)
            w.true(name, get().name == e['name'])
            for p in paths if len(paths) < 4 else [paths[0], paths[1], paths[-2], paths[-1]]:
                p.unlink()
                w.raises('%s without %s' % (name, p.name), FileNotFoundError, get)
                w.true(name + ': not verified', get(verify=False).name == e['name'])
                p.touch()
            for p in paths:
                p.unlink()
            # the other compression does not count
            for f in files(e):
                (pathlib.Path(tmp) / (f + ('' if compressed else '.gz'))).touch()
            w.raises(name + ': other compression', FileNotFoundError, get)
    w.true('formats', len(seen) >= 4)


@contract('P23', 'lists', functions=[M + n for n in ('formats', 'ocean_elevation', 'load_elevation', 'ocean_current', 'OTIS', 'ATLAS_compact', 'TMD3', 'ATLAS', 'GOT', 'FES')], trials=1)
def lists(w):
    cls = w.get('pyTMD.io.model.model')
    db = database()
    el = db['elevation']
    w.true('formats', cls.formats() == sorted({e['format'] for k in db for e in db[k].values()}))
    w.true('ocean', cls.ocean_elevation() == sorted(n for n, e in el.items() if e['variable'] in ('tide_ocean', 'tide_lpe')))
    w.true('load', cls.load_elevation() == sorted(n for n, e in el.items() if e['variable'] == 'tide_load'))
    w.true('current', cls.ocean_current() == sorted(db['current']))
    for at, fm in (('OTIS', ['OTIS']), ('ATLAS_compact', ['ATLAS-compact']), ('TMD3', ['TMD3']), ('ATLAS', ['ATLAS-netcdf']), ('GOT', ['GOT-ascii', 'GOT-netcdf']), ('FES', ['FES-ascii', 'FES-netcdf'])):
        w.true(at, getattr(cls, at)() == sorted(n for n, e in el.items() if e['format'] in fm))


LAND = {'tide_ocean': dict(atl03='tide_ocean', atl06='tide_ocean', atl07='height_segment_ocean', atl10='height_segment_ocean', atl11='tide_ocean', atl12='tide_ocean_seg', gla12='d_ocElv', long_name='ocean_tide_elevation',
                           description='Ocean tidal elevations derived from harmonic constants'),
        'tide_load': dict(atl03='tide_load', atl06='tide_load', atl07='height_segment_load', atl10='height_segment_load', atl11='tide_load', atl12='tide_load_seg', gla12='d_ldElv', long_name='load_tide_elevation',
                          description='Local displacement due to ocean tidal loading derived from harmonic constants'),
        'tide_lpe': dict(atl03='tide_equilibrium', atl06='tide_equilibrium', atl07='height_segment_lpe', atl10='height_segment_lpe', atl11='tide_equilibrium', atl12='tide_equilibrium_seg', gla12='d_eqElv',
                         long_name='equilibrium_tide_elevation', description='Long-period equilibrium tide elevations')}
CORR = {'OTIS': ('OTIS', 'OTIS'), 'ATLAS-compact': ('ATLAS', 'ATLAS'), 'TMD3': ('TMD3', 'TMD3'), 'ATLAS-netcdf': ('ATLAS', 'netcdf'), 'GOT-ascii': ('perth3', 'ascii'), 'GOT-netcdf': ('GOT', 'netcdf'),
        'FES-ascii': ('FES', 'ascii'), 'FES-netcdf': ('FES', 'netcdf')}


@contract('P23', 'attributes', functions=[M + n for n in ('corrections', 'file_format', 'atl03', 'atl06', 'atl07', 'atl10', 'atl11', 'atl12', 'gla12', 'long_name', 'description', 'validate_format', '__getitem__', '__setitem__', '__str__')] + ['io.model.DataBase.' + n for n in ('keys', 'values', 'items', '__getitem__')], trials=1)
def attributes(w):
    """corrections and file formats of every format, output attributes of every variable"""
    cls = w.get('pyTMD.io.model.model')
    D = w.get('pyTMD.io.model.DataBase')(current='c', elevation='e')
    w.true('database', (D['current'], D['elevation']) == ('c', 'e') and dict(D.items()) == dict(current='c', elevation='e'))
    w.true('database', list(D.keys()) == ['current', 'elevation'] and list(D.values()) == ['c', 'e'])
    m = cls()
    m['name'] = 'a model'
    w.true('items of a model', m.name == 'a model' and m['name'] == 'a model')
    w.true('text of a model', str(m) == 'pyTMD.io.model\n    name: a model')
    for f, (c, g) in CORR.items():
        m = cls()
        m.format = f
        w.true(f, m.corrections == c)
        w.true(f, m.file_format == g)
    for old, new in (('ATLAS', 'ATLAS-compact'), ('netcdf', 'ATLAS-netcdf'), ('FES', 'FES-netcdf'), ('GOT', 'GOT-ascii'), ('OTIS', 'OTIS'), ('TMD3', 'TMD3')):
        m = cls()
        m.format = old
        m.validate_format()
        w.true(old, m.format == new)
    for bad in ('', 'otis', 'GOT-', 'unknown', None):
        m = cls()
        m.format = bad
        w.raises('unknown format', AssertionError, m.validate_format)
    for v, at in LAND.items():
        m = cls()
        m.type, m.variable = 'z', v
        for k, s in at.items():
            w.true('%s %s' % (v, k), m[k] == s)
        m.type = ['u', 'v']
        for k in at:
            if k not in ('long_name', 'description'):
                w.true('%s %s' % (v, k), m[k] is None)
        w.true('long name', m.long_name == dict(u='zonal_tidal_current', v='meridional_tidal_current'))
        w.true('description', m.description == dict(u='Depth-averaged tidal zonal current derived from harmonic constants', v='Depth-averaged tidal meridional current derived from harmonic constants'))


def example(fmt, typ, many):
    """attributes of a model and its files"""
    e = dict(name='Example', format=fmt, type=typ, variable='tide_ocean' if typ == 'z' else 'currents', reference='https://doi.org/none')
    cons = ['s2', 'm2', 'k1', 'n2'] if many else ['m2']
    ext = {'GOT-ascii': '.d', 'FES-ascii': '.asc', 'OTIS': '', 'ATLAS-compact': ''}.get(fmt, '.nc')
    if fmt in ('OTIS', 'ATLAS-compact', 'TMD3', 'ATLAS-netcdf'):
        e['grid_file'] = 'mod/grid' + ext
    if fmt in ('OTIS', 'ATLAS-compact', 'TMD3'):
        e['projection'] = 'EPSG:4326'
    else:
        e['scale'] = 0.01
    if fmt.startswith('FES'):
        e['version'] = 'FES2014'
    lst = lambda p: ['%s/%s%s' % (p, c, ext) for c in cons] if many else '%s/%s%s' % (p, cons[0], ext)
    if typ == 'z':
        e['model_file'] = lst('mod')
    else:
        e['model_file'] = {k: lst('mod_' + k) for k in (['u'] if fmt in ('OTIS', 'ATLAS-compact', 'TMD3') else ['u', 'v'])}
    return e, cons


KINDS = [dict(fmt=f, typ=t, many=m) for f in FORMATS for t in ('z', ['u', 'v']) for m in (False, True)
         if not (t != 'z' and f.startswith('GOT')) and not (m and f in ('ATLAS-compact', 'TMD3'))]


@contract('P23', 'definition files', functions=[M + n for n in ('from_file', '_parse_file', '_parse_json', 'to_dict', 'serialize', 'from_dict', 'parse_constituents')], params=KINDS, bounded=True, trials=1)
def definition(w, fmt, typ, many):
    """a model written as a definition file and read again is the same model, from
    a path, an open file or a text buffer; patterns of files are found in order"""
    cls = w.get('pyTMD.io.model.model')
    e, cons = example(fmt, typ, many)
    with tempfile.TemporaryDirectory() as tmp:
        tmp = os.path.realpath(tmp)
        for f in files(e):
            p = pathlib.Path(tmp) / f
            p.parent.mkdir(parents=True, exist_ok=True)
            p.touch()
        ref = dict(e, **{k: placed(e[k], tmp) for k in ('grid_file', 'model_file') if k in e})
        if fmt.startswith('FES'):
            ref['constituents'] = cons
        m = cls().from_dict(ref)
        for rnd in range(2):
            text = json.dumps(m.to_dict(serialize=True))
            w.true('model kept', m.model_file == ref['model_file'])
            p = pathlib.Path(tmp) / ('def%d.json' % rnd)
            p.write_text(text)
            got = [cls().from_file(p), cls().from_file(str(p)), cls().from_file(io.StringIO(text))]
            with p.open() as fid:
                got.append(cls().from_file(fid))
            for g in got:
                for k, v in ref.items():
                    w.true(k, g[k] == v)
            m = got[rnd]
        # without constituents they are those of the files
        d = m.to_dict(serialize=True)
        d.pop('constituents', None)
        g = cls().from_file(io.StringIO(json.dumps(d)))
        w.true('constituents', g.constituents == (cons if fmt.startswith('FES') else None))
        # some fields
        w.true('fields', m.to_dict(fields=['name', 'type', 'minor']) == dict(name='Example', type=typ))
        # missing parts are errors
        for k in ('name', 'format', 'type', 'model_file') + tuple(k for k in ('grid_file', 'projection', 'scale', 'version') if k in e):
            d = m.to_dict(serialize=True)
            d.pop(k)
            w.raises('without ' + k, (AssertionError, KeyError, TypeError), lambda: cls().from_file(io.StringIO(json.dumps(d))))
        w.raises('not a definition', IOError, lambda: cls().from_file(io.StringIO('name Example\n')))
        w.raises('older format', ValueError, lambda: cls().from_file(io.StringIO(text), format='ascii'))
        # patterns within a directory
        for pattern in (lambda s: s, lambda s: [s]):
            pat = (lambda x: pattern(os.path.dirname(x[0]) + '/*' + os.path.splitext(x[0])[1])) if many else (lambda x: pattern(os.path.dirname(x) + '/[!g]*' + os.path.splitext(x)[1]))
            if many and fmt in ('OTIS', 'ATLAS-netcdf'):
                pat = lambda x: pattern(os.path.dirname(x[0]) + '/??' + os.path.splitext(x[0])[1])
            d = dict(e, model_file={k: pat(v) for k, v in e['model_file'].items()} if typ != 'z' else pat(e['model_file']))
            g = cls(tmp).from_file(io.StringIO(json.dumps(d)))
            got = g.model_file if typ != 'z' else {'z': g.model_file}
            for k, v in (e['model_file'] if typ != 'z' else {'z': e['model_file']}).items():
                want = sorted(placed(v, tmp)) if many else [placed(v, tmp)]
                w.true('found', (got[k] if isinstance(got[k], list) else [got[k]]) == want)
                if not many and fmt in ('OTIS', 'ATLAS-compact', 'TMD3'):
                    w.true('single file', not isinstance(got[k], list))
            if 'grid_file' in e:
                w.true('grid', g.grid_file == pathlib.Path(tmp) / e['grid_file'])
            if fmt.startswith('FES'):
                w.true('constituents found', g.constituents == sorted(cons))
        # several patterns: files in their order
        if many:
            back = lambda x: sorted(x, reverse=True)
            d = dict(e, model_file={k: back(v) for k, v in e['model_file'].items()} if typ != 'z' else back(e['model_file']))
            d.pop('constituents', None)
            g = cls(tmp).from_file(io.StringIO(json.dumps(d)))
            got = g.model_file if typ != 'z' else {'z': g.model_file}
            for k, v in (e['model_file'] if typ != 'z' else {'z': e['model_file']}).items():
                w.true('found in order', got[k] == placed(back(v), tmp))
            if fmt.startswith('FES'):
                w.true('constituents in order', g.constituents == sorted(cons, reverse=True))


def reader(w, calls, name, real, out):
    """stand-in of a reader: records its arguments by name"""
    sig = inspect.signature(real)

    def f(*a, **k):
        b = sig.bind(*a, **k)
        args = dict(b.arguments)
        args.update(args.pop('kwargs', {}))
        calls.append((name, args))
        return out()
    return f


NK = ['n2', 'm2', 'k1']


class Grid:
    """constituents at nodes (io.constituents by contract P22)"""


DISPATCH = [dict(fmt=f, typ=t, many=m, node=n) for f in FORMATS for t in ('z', 'u', 'v') for m in (True, False) for n in (None, 'append', 'there')
            if not (t != 'z' and f.startswith('GOT')) and not (m and f in ('ATLAS-compact', 'TMD3')) and not (n and not m and f in ('OTIS',))]


def setup(w, fmt, typ, many, node):
    cls = w.get('pyTMD.io.model.model')
    m = cls()
    e, _ = example(fmt, 'z' if typ == 'z' else ['u', 'v'], many)
    m.from_dict(e)
    m.compressed = True
    names = NK + (['node'] if node == 'there' else [])
    if fmt.startswith('FES'):
        m.constituents = list(names)
    mf = m.model_file if typ == 'z' else m.model_file['u' if fmt in ('OTIS', 'ATLAS-compact', 'TMD3') else typ]
    return m, e, names, mf


def called(w, label, args, m, e, fmt, typ, mf, read=True):
    """arguments of the readers"""
    kind = args.get('type')
    w.true(label + ': type', kind == typ)
    if read:
        w.true(label + ': files', args['model_file' if 'model_file' in args else 'model_files'] == mf)
        if 'grid_file' in e:
            w.true(label + ': grid', args['grid_file'] == e['grid_file'])
        if fmt in ('OTIS', 'ATLAS-compact', 'TMD3'):
            w.true(label + ': projection', args['projection'] == 'EPSG:4326')
            w.true(label + ': reader', args['grid'] == {'OTIS': 'OTIS', 'ATLAS-compact': 'ATLAS', 'TMD3': 'TMD3'}[fmt])
        elif fmt.startswith('GOT'):
            w.true(label + ': reader', args['grid'] == fmt[4:])
        elif fmt.startswith('FES'):
            w.true(label + ': version', args['version'] == 'FES2014')
        if fmt not in ('OTIS', 'ATLAS-compact', 'TMD3'):
            w.true(label + ': compressed', args['compressed'] is True)


def equilibrium(w, lat):
    """node tide: Cartwright potential amplitude, long period Love numbers (Wahr 1981)"""
    np = w.np
    s = np.sin(lat * np.pi / 180)
    return w.const('0.027929') * (1 + w.const('0.299') - w.const('0.606')) * (3 * s**2 - 1) / 2 * np.sqrt(5 / (4 * np.pi))


@contract('P23', 'node equilibrium', functions=[M + 'node_equilibrium'], params=product(kind=[1, 2]), tol=1e-12)
def node(w, kind):
    np = w.np
    lat = w.array('lat', tuple(w.dim(n) for n in ('ny', 'nx')[:kind]), lo=-90, hi=90)
    snap = w.snapshot(lat)
    a, p = w.get('pyTMD.io.model.model.node_equilibrium')(lat)
    w.eq('amplitude', w.data(a), equilibrium(w, lat))
    w.eq('phase', w.data(p), 180.0 + 0 * lat)
    for q in (a, p):
        w.true('valid', ~w.mask(q))
    w.unchanged('latitude', snap)


@contract('P23', 'extraction', functions=[M + 'extract_constants', 'io.model.extract_constants'], params=DISPATCH, tol=1e-12, trials=2)
def extraction(w, fmt, typ, many, node):
    """the reader of the format reads the files of the type with the options of the
    model; what it returns is returned, with the node tide appended when asked for;
    the model is not changed and may be used again"""
    np = w.np
    m, e, names, mf = setup(w, fmt, typ, many, node)
    n = w.dim('n', hi=4)
    lon, lat = w.array('lon', (n,), lo=-180, hi=180), w.array('lat', (n,), lo=-90, hi=90)
    A, P = (w.masked(x, (n, len(names)), lo=0, hi=3) for x in ('amp', 'ph'))
    D = w.masked('D', (n,))
    calls = []
    R = {'OTIS': 'OTIS', 'ATLAS-compact': 'OTIS', 'TMD3': 'OTIS', 'ATLAS-netcdf': 'ATLAS'}.get(fmt, fmt[:3])
    for r in ('OTIS', 'ATLAS', 'GOT', 'FES'):
        path = 'pyTMD.io.%s.extract_constants' % r
        out = {'OTIS': lambda: (A.copy(), P.copy(), D.copy(), list(names)), 'GOT': lambda: (A.copy(), P.copy(), list(names)), 'FES': lambda: (A.copy(), P.copy())}
        w.patch(path, reader(w, calls, r, w.get(path), out['OTIS' if r == 'ATLAS' else r]))
    f = w.get('pyTMD.io.model.extract_constants')
    snap = w.snapshot(lon, lat)
    before = {k: (list(v) if isinstance(v, list) else v) for k, v in m.to_dict().items()}
    opts = dict(append_node=True) if node else {}
    if typ != 'z':
        opts['type'] = typ
    for again in range(2):
        a, p, c = f(lon, lat, m, method='bilinear', cutoff=7.0, **opts)
        w.true('one reader', len(calls) == again + 1 and calls[-1][0] == R)
        args = calls[-1][1]
        called(w, 'extract', args, m, e, fmt, typ, mf)
        w.eq('longitude', args['ilon'], lon)
        w.eq('latitude', args['ilat'], lat)
        w.true('options', args['method'] == 'bilinear' and args['cutoff'] == 7.0)
        if 'scale' in e:
            w.true('scale', args['scale'] == e['scale'])
        want = names + (['node'] if node == 'append' else [])
        w.true('constituents', list(c) == want)
        for q, ref in ((a, A), (p, P)):
            w.shape_eq('shape', q, (n, len(want)))
            w.eq('values', w.data(q)[:, :len(names)], w.data(ref), where=~w.mask(ref))
            w.eq('masks', w.mask(q)[:, :len(names)], w.mask(ref))
        if node == 'append':
            w.eq('node amplitude', w.data(a)[:, -1], equilibrium(w, lat))
            w.eq('node phase', w.data(p)[:, -1], 180 + 0 * lat)
            w.true('node valid', ~w.mask(a)[:, -1] & ~w.mask(p)[:, -1])
        c.append('other')
        w.true('model kept', m.to_dict() == before)
    w.unchanged('coordinates', snap)


@contract('P23', 'reading', functions=[M + 'read_constants', M + 'interpolate_constants', 'io.model.read_constants', 'io.model.interpolate_constants'], params=DISPATCH, tol=1e-12, trials=2)
def reading(w, fmt, typ, many, node):
    """constituents read from the files of the type (node tide at the latitude of
    each node appended when asked for) are those interpolated"""
    np = w.np
    m, e, names, mf = setup(w, fmt, typ, many, node)
    ny, nx, n = w.dim('ny', hi=4), w.dim('nx', hi=4), w.dim('n', hi=3)
    w.differ(nx, ny)
    y = w.array('y', (ny,), lo=-90, hi=90)
    x = w.array('x', (nx,), lo=-180, hi=180)
    R = {'OTIS': 'OTIS', 'ATLAS-compact': 'OTIS', 'TMD3': 'OTIS', 'ATLAS-netcdf': 'ATLAS'}.get(fmt, fmt[:3])
    Z = {k: w.masked('z' + k, (ny, nx), 'C') for k in names}
    cls = w.get('pyTMD.io.constituents.constituents')
    calls, done = [], []
    A, P = (w.masked(q, (n, len(names)), lo=0, hi=3) for q in ('amp', 'ph'))
    D = w.masked('D', (n,))

    def grid():
        lon, lat = x, y
        if R == 'OTIS':
            lon, lat = np.meshgrid(x, y)
        c = cls(longitude=lon, latitude=lat)
        for k in names:
            c.append(k, Z[k])
        return c
    for r in ('OTIS', 'ATLAS', 'GOT', 'FES'):
        for fn, out in (('read_constants', grid), ('interpolate_constants', (lambda: (A, P, D)) if r in ('OTIS', 'ATLAS') else (lambda: (A, P)))):
            path = 'pyTMD.io.%s.%s' % (r, fn)
            w.patch(path, reader(w, calls if fn[0] == 'r' else done, r, w.get(path), out))
    opts = dict(append_node=True) if node else {}
    if typ != 'z':
        opts['type'] = typ
    c = w.get('pyTMD.io.model.read_constants')(m, crop=True, **opts)
    w.true('one reader', len(calls) == 1 and calls[0][0] == R)
    called(w, 'read', calls[0][1], m, e, fmt, typ, mf)
    w.true('options', calls[0][1]['crop'] is True)
    want = names + (['node'] if node == 'append' else [])

    def holds(c):
        w.true('constituents', list(c.fields) == want)
        for k in names:
            v = c.get(k)
            w.eq('value', w.data(v), w.data(Z[k]))
            w.eq('mask', w.mask(v), w.mask(Z[k]))
        if node == 'append':
            v = c.get('node')
            w.shape_eq('node', v, (ny, nx))
            w.eq('node tide', w.data(v), -equilibrium(w, y)[:, None] + np.zeros((ny, nx)))
            w.true('node valid', ~w.mask(v))
    holds(c)
    lon, lat = w.array('lon', (n,), lo=-180, hi=180), w.array('lat', (n,), lo=-90, hi=90)
    ip = w.get('pyTMD.io.model.interpolate_constants')
    kw = dict(type=typ) if typ != 'z' else {}
    for again in range(2):
        a, p = ip(lon, lat, m, method='linear', **kw)
        w.true('read once', len(calls) == 1 and len(done) == again + 1 and done[-1][0] == R)
        args = done[-1][1]
        called(w, 'interpolate', args, m, e, fmt, typ, mf, read=False)
        w.eq('longitude', args['ilon'], lon)
        w.eq('latitude', args['ilat'], lat)
        w.true('options', args['method'] == 'linear')
        if 'scale' in e:
            w.true('scale', args['scale'] == e['scale'])
        holds(args['constituents'])
        for q, ref in ((a, A), (p, P)):
            w.eq('values', w.data(q), w.data(ref))
            w.eq('masks', w.mask(q), w.mask(ref))
    # constituents of another type are read before they are interpolated
    if typ != 'z':
        other = 'v' if typ == 'u' else 'u'
        ip(lon, lat, m, type=other)
        w.true('read for the other type', len(calls) == 2 and calls[1][1]['type'] == other and done[-1][1]['type'] == other)
    # constituents are read when they are needed
    m2, _, _, _ = setup(w, fmt, typ, many, node)
    k = len(calls)
    ip(lon, lat, m2, **kw)
    w.true('read if needed', len(calls) == k + 1 and calls[-1][1]['type'] == typ)
