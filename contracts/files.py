"""Files of tide models: readers and writers of io.OTIS, io.ATLAS, io.GOT and io.FES"""
import contextlib
import gzip
import os
import shutil
import struct
import tempfile
import types

from pyvc.contract import contract, product

CONS = ['m2', 's2', 'k1', 'o1', 'n2', '2n2', 'eps2', 'mf', 'm4', 'msqm', 'q1', 'lam2']
ASSUME = ('binary files as functions from byte offsets to the values stored there (open, seek, read, numpy.fromfile)',)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='pyvc')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def i4(*v):
    return struct.pack('>%di' % len(v), *[int(x) for x in v])


def f4(*v):
    return struct.pack('>%df' % len(v), *[float(x) for x in v])


def record(b):
    return i4(len(b)) + b + i4(len(b))


def opened(w, mod, header, size=None, strings=None):
    """a binary file that the module opens"""
    from pyvc import vfile
    fid = vfile.VFile(w, header, size, strings)
    path = vfile.VPath(fid)
    w.stub('pyTMD.io.%s.pathlib' % mod, types.SimpleNamespace(Path=lambda f: path))
    w.true('closed before', not fid.closed)
    return fid, path


def writable(w, mod):
    """a binary file that the module writes"""
    from pyvc import vfile
    fid = vfile.WFile(w)
    path = vfile.VPath(fid)
    w.stub('pyTMD.io.%s.pathlib' % mod, types.SimpleNamespace(Path=lambda f: path))
    w.stub('pyTMD.io.%s.struct' % mod, types.SimpleNamespace(pack=vfile.pack))
    return fid, path


def laid(w, label, fid, form, o):
    """values of one type at the positions of a file that was written"""
    from pyvc import arr as A
    o = w.np.asarray(o)
    out = A._obj(o.a.shape)
    free = [(d, A.IX[o.ndim - 1 - ax]) for ax, d in enumerate(o.dims) if d is not None]
    for k in w.np.ndindex(*out.shape):
        v = fid.at(o.a[k], form, free)
        if v is None:
            w.true(label + ': no such value is written', False)
            v = w.T.ZERO
        out[k] = v
    return A.SymArr(out, o.dims, A.akind(out, 'R'))


def single(w, name, shape, **kw):
    """numbers that single precision represents"""
    a = w.array(name, shape, **kw)
    if not w.symbolic:
        a = w.np.asarray(a).astype('>f4').astype(float)
    return a


def component(w, name, shape, gaps=True):
    """complex numbers of single precision, not a number at some places"""
    np = w.np
    a, b = single(w, name + '.re', shape, lo=-50, hi=50), single(w, name + '.im', shape, lo=-50, hi=50)
    for k in np.ndindex(*shape):
        if gaps and w.rng.random() < 0.15:
            x = w.rng.randint(0, 2)
            if x != 1:
                a[k] = np.nan
            if x != 0:
                b[k] = np.nan
    return a, b


def otis_header(w, nx, ny, names, ylim, xlim):
    return record(i4(nx, ny, len(names)) + f4(*ylim, *xlim) + b''.join(c.ljust(4).encode('utf8') for c in names))


@contract('P24', 'constituents of OTIS files', functions=['io.OTIS.read_otis_elevation', 'io.OTIS.read_otis_transport'], params=product(what=['elevation', 'transport']), assumes=ASSUME, tol=1e-9, trials=10)
def otis_component(w, what):
    """the values of a constituent are those of its record of the file, in any order
    of constituents; nodes that are not a number are masked"""
    np = w.np
    nx, ny = w.dim('nx', lo=1), w.dim('ny', lo=1)
    w.differ(nx, ny)
    parts = 2 if what == 'elevation' else 4
    read = w.get('pyTMD.io.OTIS.read_otis_' + what)
    if w.symbolic:
        T = w.T
        nc, ic = w.integer('nc', lo=1), w.integer('ic', lo=0)
        w.assume(ic < nc)
        X, Y = w.size(nx), w.size(ny)
        head = 4 * (3 + 4) + 4 * nc
        fid, path = opened(w, 'OTIS', {0: head, 4: X, 8: Y, 12: nc})
        got = read(path, ic)
        w.true('closed', fid.closed)
        # the record of constituent ic: length, values of each node in turn, length
        start = (4 + head + 4) + ic * (4 + 4 * parts * X * Y + 4) + 4
        o = start + 4 * parts * (np.arange(ny)[:, None] * X + np.arange(nx)[None, :])
        values = [w.uf('f4', o + 4 * k) for k in range(parts)]
    else:
        names = w.rng.sample(CONS, w.rng.randint(1, 4))
        ic = w.rng.randrange(len(names))
        F = {c: [component(w, '%s%d' % (c, k), (ny, nx)) for k in range(parts // 2)] for c in names}
        b = otis_header(w, nx, ny, names, (-10, 10), (0, 40))
        for c in names:
            b += record(b''.join(f4(*[v for z in F[c] for v in (z[0][j, i], z[1][j, i])]) for j in range(ny) for i in range(nx)))
        with scratch() as d:
            f = os.path.join(d, 'h')
            with open(f, 'wb') as fid:
                fid.write(b)
            got = read(f, ic)
        values = [v for z in F[names[ic]] for v in z]
    got = [got] if what == 'elevation' else list(got)
    w.true('number of components', len(got) == parts // 2)
    for k, z in enumerate(got):
        re, im = values[2 * k], values[2 * k + 1]
        bad = np.isnan(re) | np.isnan(im)
        w.shape_eq('shape', z, (ny, nx))
        w.eq('mask', w.mask(z), bad)
        w.eq('real part', w.data(z).real, re, where=~bad)
        w.eq('imaginary part', w.data(z).imag, im, where=~bad)


@contract('P24', 'constituents of large OTIS files', functions=['io.OTIS.read_otis_elevation', 'io.OTIS.read_otis_transport', 'io.OTIS.read_atlas_elevation', 'io.OTIS.read_atlas_transport'], params=product(fmt=['otis', 'atlas'], what=['elevation', 'transport'], last=[True, False]), bounded=True, trials=1)
def large_files(w, fmt, what, last):
    """bounded: records beyond two gigabytes are found, and what follows them (byte offsets are
    not those of 32 bit integers); the file is sparse"""
    np = w.np
    parts = 2 if what == 'elevation' else 4
    nx, ny = 1 << 19, 3
    size = 4 + 4 * parts * nx * ny + 4
    nc = (1 << 31) // size + w.rng.randint(3, 6)
    ic = nc - 1 if last else 0
    names = [''.join(w.rng.choice('abcdefgh') for _ in range(4)) for _ in range(nc)]
    values, at = [1 + k for k in range(parts)], (w.rng.randrange(ny), w.rng.randrange(nx))
    head = otis_header(w, nx, ny, names, (-10, 10), (0, 40))
    with scratch() as d:
        f = os.path.join(d, 'h')
        with open(f, 'wb') as fid:
            fid.write(head)
            fid.seek(len(head) + ic * size)
            fid.write(i4(size - 8))
            fid.seek(4 * parts * (at[0] * nx + at[1]), 1)
            fid.write(f4(*values))
            fid.truncate(len(head) + nc * size)
            if fmt == 'atlas':
                # a local model of the constituent at one node
                fid.seek(len(head) + nc * size)
                n = parts // 2
                fid.write(i4(0, 1, 1, 1, *[1] * n) + f4(0, 1, 0, 1) + b'm2  ' + b'local'.ljust(20) + i4(0))
                for k in range(n):
                    fid.write(record(i4(1, 1)))
                for k in range(n):
                    fid.write(record(f4(2 + k, 3 + k)))
        read = w.get('pyTMD.io.OTIS.read_%s_%s' % (fmt, what))
        got = read(f, ic, 'm2') if fmt == 'atlas' else read(f, ic)
    got = list(got) if isinstance(got, tuple) else [got]
    if fmt == 'atlas':
        local = got.pop()
        w.true('local models', list(local) == [b'local'] and all(
            complex(local[b'local'][k][0, 0]) == complex(2 + i, 3 + i) for i, k in enumerate(['z'] if what == 'elevation' else ['u', 'v'])))
    for k, z in enumerate(got):
        z = np.ma.getdata(z)
        w.true('values of the record', z.shape == (ny, nx) and np.count_nonzero(z) == 1 and complex(z[at]) == complex(*values[2 * k:2 * k + 2]))


# ------------------------------------------------------------ OTIS grid files
def linear(w, lo, hi, n):
    """centers of the n cells between the limits"""
    np = w.np
    k = np.arange(w.size(n) if w.symbolic else n)
    return lo + (2 * k + 1) * (hi - lo) / (2 * w.size(n))


@contract('P24', 'OTIS grids', functions=['io.OTIS.read_otis_grid', 'io.OTIS.read_atlas_grid'], params=product(fmt=['otis'], nob=[0, 1], local=[0]) + product(fmt=['atlas'], nob=[0, 1], local=[0, 1, 2]), assumes=ASSUME, tol=1e-6, trials=10)
def otis_grid(w, fmt, nob, local):
    """centers of the grid cells, bathymetry, masks, boundary nodes and time step are
    those of the file, and so are the depths of the local models"""
    np = w.np
    nx, ny = w.dim('nx', lo=1), w.dim('ny', lo=1)
    w.differ(nx, ny)
    nb = w.dim('nob', lo=1) if nob else 0
    name = 'pyTMD.io.OTIS.read_%s_grid' % fmt
    models = [b'first', b'local model no. two'][:local]
    if w.symbolic:
        X, Y, B = w.size(nx), w.size(ny), w.size(nb)
        n1 = [(w.dim('nx%d' % m), w.dim('ny%d' % m), w.dim('nd%d' % m)) for m in range(local)]
        header = {0: 32, 4: X, 8: Y, 32: B}
        o = 4 + 32 + 4
        o += 4
        ob = o
        o += (8 * B if nob else 4) + 4
        oh = o + 4
        om = oh + 4 * X * Y + 4 + 4
        op = om + 4 * X * Y + 4 + 4
        end = (op if fmt == 'atlas' else om) + 4 * X * Y + 4
        # local models: sizes, limits and name; indices; depths
        at, where = [], {}
        for (x1, y1, nd), nm in zip(n1, models):
            S = end + 4
            header.update({S: w.size(x1), S + 4: w.size(y1), S + 8: w.size(nd)})
            where[S + 12 + 16] = nm
            oi = S + 12 + 16 + 20 + 4 + 4
            oj = oi + 4 * w.size(nd)
            od = oj + 4 * w.size(nd) + 4 + 4
            end = od + 4 * w.size(nd) + 4
            at.append((S, oi, oj, od))

        def strings(p, n):
            from pyvc import vfile
            for q, nm in where.items():
                if vfile.same(p, q) and vfile.same(n, 20):
                    return nm.ljust(20)
            raise ValueError('text')
        f4_, i4_ = (lambda o: w.uf('f4', o)), (lambda o: w.uf('i4', o, kind='I'))
        fid, path = opened(w, 'OTIS', header, end, strings)
        r = w.get(name)(path)
        w.true('closed', fid.closed)
        ylim, xlim = [f4_(12), f4_(16)], [f4_(20), f4_(24)]
        dt = f4_(28)
        k = np.arange(ny)[:, None] * X + np.arange(nx)[None, :]
        hz, mz, pmask = f4_(oh + 4 * k), i4_(om + 4 * k), i4_(op + 4 * k)
        iob = i4_(ob + 4 * (2 * np.arange(nb)[:, None] + np.arange(2)[None, :])) if nob else None
        depths = []
        for (x1, y1, nd), (S, oi, oj, od) in zip(n1, at):
            a = (oj, oi, w.size(nd), np.arange(y1)[:, None] + 1, np.arange(x1)[None, :] + 1)
            known = w.uf('listed', *a, kind='B')
            depths.append(((y1, x1), [f4_(S + 12), f4_(S + 16)], [f4_(S + 20), f4_(S + 24)], known, f4_(od + 4 * w.uf('at', *a, kind='I'))))
    else:
        r1 = w.rng
        ylim = single(w, 'ylim', (2,), lo=-90, hi=90)
        xlim = single(w, 'xlim', (2,), lo=-180, hi=360)
        if r1.random() < 0.5:
            xlim = -abs(xlim)
        dt = r1.choice([0.0, 0.0, 12.0, 4.5])
        hz = single(w, 'hz', (ny, nx), lo=0, hi=5000)
        mz, pmask = w.array('mz', (ny, nx), kind='I', lo=0, hi=1), w.array('pmask', (ny, nx), kind='I', lo=-3, hi=3)
        iob = w.array('iob', (nb, 2), kind='I', lo=1, hi=40) if nob else None
        b = record(i4(nx, ny) + f4(*ylim, *xlim) + f4(dt) + i4(nb))
        b += record(i4(*iob.ravel())) if nob else record(i4(0))
        b += record(f4(*hz.ravel())) + record(i4(*mz.ravel()))
        depths = []
        if fmt == 'atlas':
            b += record(i4(*pmask.ravel()))
            for nm in models:
                x1, y1 = r1.randint(1, 5), r1.randint(1, 5)
                cells = r1.sample([(j, i) for j in range(y1) for i in range(x1)], r1.randint(1, x1 * y1))
                lt, ln = single(w, 'lt' + nm.decode(), (2,), lo=-90, hi=90), single(w, 'ln' + nm.decode(), (2,), lo=0, hi=360)
                v = single(w, 'depth' + nm.decode(), (len(cells),), lo=1, hi=5000)
                b += record(i4(x1, y1, len(cells)) + f4(*lt, *ln) + nm.ljust(20))
                b += record(i4(*[i + 1 for j, i in cells], *[j + 1 for j, i in cells])) + record(f4(*v))
                known, val = np.zeros((y1, x1), dtype=bool), np.zeros((y1, x1))
                for (j, i), d in zip(cells, v):
                    known[j, i], val[j, i] = True, d
                depths.append(((y1, x1), lt, ln, known, val))
        with scratch() as d:
            f = os.path.join(d, 'grid')
            with open(f, 'wb') as fid:
                fid.write(b)
            r = w.get(name)(f)
    x, y, h, m, ib, t = r[:6]
    west = (xlim[0] < 0) & (xlim[1] < 0) & (dt > 0) if fmt == 'otis' else False
    turn = w.ite(west, 360, 0) if w.symbolic else 360 * bool(west)
    w.shape_eq('shape of x', x, (nx,))
    w.shape_eq('shape of y', y, (ny,))
    w.eq('x', x, linear(w, xlim[0] + turn, xlim[1] + turn, nx), tol=1e-5)
    w.eq('y', y, linear(w, ylim[0], ylim[1], ny), tol=1e-5)
    w.shape_eq('shape of bathymetry', h, (ny, nx))
    w.eq('bathymetry', h, hz)
    w.shape_eq('shape of mask', m, (ny, nx))
    w.eq('mask', m, mz)
    w.eq('time step', t, dt)
    if nob:
        w.shape_eq('shape of boundary', ib, (nb, 2))
        w.eq('boundary', ib, iob)
    else:
        w.true('no boundary', len(ib) == 0)
    if fmt == 'atlas':
        w.eq('base or local', r[6], pmask)
        w.true('local models', list(r[7]) == models)
        for nm, (shape, lt, ln, known, val) in zip(models, depths):
            z = r[7][nm]
            w.eq('latitude limits', z['lat'], lt)
            w.eq('longitude limits', z['lon'], ln)
            w.shape_eq('shape of local depths', z['depth'], shape)
            w.eq('local depths: mask', w.mask(z['depth']), ~known)
            w.eq('local depths', w.data(z['depth']), val, where=known)
    else:
        w.true('number of outputs', len(r) == 6)


# ------------------------------------------------------ ATLAS-compact files
LOCAL = [[], [['m2', 's2', 'k1']], [['s2', 'k1']], [['k1', 'm2'], ['m2']], [['s2'], ['k1', 's2', 'm2']], [['m2', 'eps2', 's2'], ['eps2', 'm2']]]


@contract('P24', 'constituents of ATLAS-compact files', functions=['io.OTIS.read_atlas_elevation', 'io.OTIS.read_atlas_transport'], params=product(what=['elevation', 'transport'], local=list(range(len(LOCAL)))), assumes=ASSUME, tol=1e-9, trials=8)
def atlas_component(w, what, local):
    """values of a constituent in the global solution and in each of the local models
    that have it, wherever it is among their constituents"""
    np = w.np
    nx, ny = w.dim('nx', lo=1), w.dim('ny', lo=1)
    w.differ(nx, ny)
    comps = ['z'] if what == 'elevation' else ['u', 'v']
    parts = 2 * len(comps)
    models = LOCAL[local]
    titles = [b'first', b'local model no. two'][:len(models)]
    read = w.get('pyTMD.io.OTIS.read_atlas_' + what)
    locals_ = []
    if w.symbolic:
        nc, ic = w.integer('nc', lo=1), w.integer('ic', lo=0)
        w.assume(ic < nc)
        X, Y = w.size(nx), w.size(ny)
        head = 4 * (3 + 4) + 4 * nc
        header = {0: head, 4: X, 8: Y, 12: nc}
        text = []
        size = 4 + 4 * parts * X * Y + 4
        start = (4 + head + 4) + ic * size + 4
        end = (4 + head + 4) + nc * size
        for m, (names, title) in enumerate(zip(models, titles)):
            x1, y1 = w.dim('nx%d' % m), w.dim('ny%d' % m)
            ns = [w.dim('n%s%d' % (c, m)) for c in comps]
            S = end + 4
            header.update({S: w.size(x1), S + 4: w.size(y1), S + 8: len(names)})
            o = S + 12
            for n in ns:
                header[o] = w.size(n)
                o = o + 4
            lat, lon = o, o + 8
            o = o + 16
            text.append((o, 4 * len(names), b''.join(c.ljust(4).encode() for c in names)))
            o = o + 4 * len(names)
            text.append((o, 20, title.ljust(20)))
            o = o + 20 + 4
            ij = []
            for n in ns:
                ij.append((o + 4, o + 4 + 4 * w.size(n)))
                o = o + 4 + 8 * w.size(n) + 4
            val = None
            for c in names:
                for n, (oi, oj), k in zip(ns, ij, comps):
                    if c == 'm2':
                        a = (oj, oi, w.size(n), np.arange(y1)[:, None] + 1, np.arange(x1)[None, :] + 1)
                        known, e = w.uf('listed', *a, kind='B'), w.uf('at', *a, kind='I')
                        val = val or {}
                        val[k] = (known, w.uf('f4', o + 4 + 8 * e), w.uf('f4', o + 4 + 8 * e + 4))
                    o = o + 4 + 8 * w.size(n) + 4
            end = o
            if val:
                locals_.append((title, (y1, x1), [w.uf('f4', lat), w.uf('f4', lat + 4)], [w.uf('f4', lon), w.uf('f4', lon + 4)], val))

        def strings(p, n):
            from pyvc import vfile
            for q, k, b in text:
                if vfile.same(p, q) and vfile.same(n, k):
                    return b
            raise ValueError('text')
        fid, path = opened(w, 'OTIS', header, end, strings)
        got = read(path, ic, 'm2')
        w.true('closed', fid.closed)
        o = start + 4 * parts * (np.arange(ny)[:, None] * X + np.arange(nx)[None, :])
        values = [w.uf('f4', o + 4 * k) for k in range(parts)]
    else:
        names = w.rng.sample(CONS, w.rng.randint(1, 4))
        ic = w.rng.randrange(len(names))
        F = {c: [component(w, '%s%d' % (c, k), (ny, nx), gaps=False) for k in range(parts // 2)] for c in names}
        b = otis_header(w, nx, ny, names, (-10, 10), (0, 40))
        for c in names:
            b += record(b''.join(f4(*[v for z in F[c] for v in (z[0][j, i], z[1][j, i])]) for j in range(ny) for i in range(nx)))
        values = [v for z in F[names[ic]] for v in z]
        for m, (cons, title) in enumerate(zip(models, titles)):
            x1, y1 = w.rng.randint(1, 5), w.rng.randint(1, 5)
            at = [w.rng.sample([(j, i) for j in range(y1) for i in range(x1)], w.rng.randint(1, x1 * y1)) for _ in comps]
            lt, ln = single(w, 'lt%d' % m, (2,), lo=-90, hi=90), single(w, 'ln%d' % m, (2,), lo=0, hi=360)
            b += record(i4(x1, y1, len(cons), *map(len, at)) + f4(*lt, *ln) + b''.join(c.ljust(4).encode() for c in cons) + title.ljust(20))
            for cells in at:
                b += record(i4(*[i + 1 for j, i in cells], *[j + 1 for j, i in cells]))
            val = {}
            for c in cons:
                for k, cells in zip(comps, at):
                    re, im = component(w, '%s%d%s' % (c, m, k), (len(cells),), gaps=False)
                    b += record(f4(*[v for z in zip(re, im) for v in z]))
                    if c == 'm2':
                        known, R, I = np.zeros((y1, x1), dtype=bool), np.zeros((y1, x1)), np.zeros((y1, x1))
                        for (j, i), r, q in zip(cells, re, im):
                            known[j, i], R[j, i], I[j, i] = True, r, q
                        val[k] = (known, R, I)
            if val:
                locals_.append((title, (y1, x1), lt, ln, val))
        with scratch() as d:
            f = os.path.join(d, 'h')
            with open(f, 'wb') as fid:
                fid.write(b)
            got = read(f, ic, 'm2')
    got, lm = list(got[:-1]), got[-1]
    w.true('number of components', len(got) == parts // 2)
    for k, z in enumerate(got):
        w.shape_eq('shape', z, (ny, nx))
        w.eq('real part', w.data(z).real, values[2 * k])
        w.eq('imaginary part', w.data(z).imag, values[2 * k + 1])
    w.true('local models with the constituent', list(lm) == [t for t, *_ in locals_])
    for t, shape, lt, ln, val in locals_:
        z = lm[t]
        w.eq('latitude limits', z['lat'], lt)
        w.eq('longitude limits', z['lon'], ln)
        for k, (known, re, im) in val.items():
            w.shape_eq('shape of the local solution', z[k], shape)
            w.eq('local solution: mask', w.mask(z[k]), ~known)
            w.eq('local solution: real part', w.data(z[k]).real, re, where=known)
            w.eq('local solution: imaginary part', w.data(z[k]).imag, im, where=known)


@contract('P24', 'names of constituents', functions=['io.OTIS.read_constituents'], params=product(grid=['OTIS', 'ATLAS', 'TMD3']), assumes=ASSUME, trials=10)
def constituent_names(w, grid):
    """names in the order of the file, also where nothing separates them"""
    read = w.get('pyTMD.io.OTIS.read_constituents')
    if grid == 'TMD3':
        names = ['m2', 'eps2', 'k1'] if w.symbolic else w.rng.sample(CONS, w.rng.randint(1, 6))
        with scratch() as d:
            import netCDF4
            f = os.path.join(d, 'h.nc')
            with netCDF4.Dataset(f, 'w') as nc:
                nc.createVariable('constituents', 'i1', ()).constituent_order = ' '.join(names)
            got, n = read(f, grid=grid)
        w.true('names', list(got) == names and n == len(names))
        return
    if w.symbolic:
        from pyvc import vfile
        nd = w.dim('nc', lo=1)
        names = w.names('constituents', nd, CONS)

        def strings(p, n):
            if vfile.same(p, 32) and vfile.same(n, 4 * w.size(nd)):
                return vfile.Names(names)
            raise ValueError('text')
        fid, path = opened(w, 'OTIS', {0: 28 + 4 * w.size(nd), 4: w.integer('nx', lo=1), 8: w.integer('ny', lo=1), 12: w.size(nd)}, strings=strings)
        got, n = read(path, grid=grid)
        w.true('closed', fid.closed)
        w.eq('number', n, w.size(nd))
        w.eq('names', w.indices(got), w.indices(names))
        return
    names = w.rng.sample(CONS, w.rng.randint(1, 6))
    with scratch() as d:
        f = os.path.join(d, 'h')
        with open(f, 'wb') as fid:
            fid.write(otis_header(w, 2, 3, names, (-10, 10), (0, 40)))
        got, n = read(f, grid=grid)
    w.true('names', list(got) == names and n == len(names))


# --------------------------------------------------------------- netCDF files
NC = ('netCDF4 files as variables by name, with dimensions, attributes and fill values (netCDF4, gzip)',)


class Variable:
    def __init__(self, value=None, dims=(), dtype=None, fill=None):
        self.value, self.dims, self.dtype, self.fill, self.attrs = value, dims, dtype, fill, {}

    def __getitem__(self, i):
        return self.value[i].copy()

    def __setitem__(self, i, v):
        if not (i is Ellipsis or i == slice(None) or (isinstance(i, tuple) and all(j == slice(None) for j in i))):
            raise NotImplementedError('part of a variable')
        self.value = v.copy()

    def setncattr(self, n, v):
        self.attrs[n] = v

    def set_auto_chartostring(self, on):
        pass

    set_auto_maskandscale = set_auto_mask = set_auto_chartostring


class Dataset:
    """a netCDF file, as netCDF4 shows it"""

    def __init__(self, dims=None, variables=None, **attrs):
        self.dimensions = {k: types.SimpleNamespace(size=v) for k, v in (dims or {}).items()}
        self.variables = variables or {}
        self.closed = False
        self.__dict__.update(attrs)

    def createDimension(self, n, size=None):
        self.dimensions[n] = types.SimpleNamespace(size=size)

    def createVariable(self, n, dtype, dims=(), fill_value=None, **kw):
        v = self.variables[n] = Variable(None, tuple(dims), dtype, fill_value)
        return v

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def stub_netcdf(w, mod, ds, mode='r', compressed=False):
    """the file that the module opens"""
    count = []

    def opener(name, m='r', memory=None, **k):
        w.true('mode of the file', m == mode)
        w.true('compressed file', (memory is not None) == compressed)
        count.append(1)
        return ds
    w.stub('pyTMD.io.%s.netCDF4' % mod, types.SimpleNamespace(Dataset=opener))

    class Zip:
        def read(self):
            return b'content'

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    if mod != 'OTIS':
        w.stub('pyTMD.io.%s.gzip' % mod, types.SimpleNamespace(open=lambda f, m='rb': Zip()))
    return HERE


HERE = __file__


def on_disk(w, d, dims, variables, compressed=False, **attrs):
    """a netCDF file with the variables {name: (dims, values, fill)}"""
    import netCDF4
    f = os.path.join(d, 'file.nc')
    with netCDF4.Dataset(f, 'w') as nc:
        for n, k in dims.items():
            nc.createDimension(n, k)
        for n, (ds, v, fill) in variables.items():
            x = nc.createVariable(n, v.dtype, ds, fill_value=fill)
            if n == 'con' and w.rng.random() < 0.5:
                x.setncattr('_Encoding', 'utf8')
                x.set_auto_chartostring(False)
            x.set_auto_mask(False)
            x[...] = v
        for n, v in attrs.items():
            nc.setncattr(n, v)
    if compressed:
        with open(f, 'rb') as a, gzip.open(f + '.gz', 'wb') as b:
            b.write(a.read())
        f += '.gz'
    return f


def masked_var(w, v, fill):
    """what netCDF4 returns for a variable"""
    np = w.np
    return np.ma.array(v, mask=(v == fill), fill_value=fill)


def char(name):
    import numpy
    return numpy.array([c.encode() for c in name.ljust(4)], dtype='S1')


@contract('P24', 'TMD3 files', functions=['io.OTIS.read_netcdf_grid', 'io.OTIS.read_netcdf_file'], params=product(what=['grid', 'z', 'u', 'U', 'v', 'V']), assumes=NC, tol=1e-6, trials=8)
def tmd3(w, what):
    """grid and constituents from south to north; transports and heights as in-phase
    and quadrature components; flexure as a factor"""
    np = w.np
    nx, ny, nc = w.dim('nx', lo=1), w.dim('ny', lo=1), w.dim('nc', lo=1)
    w.differ(nx, ny)
    ic = w.integer('ic', lo=0, hi=None if w.symbolic else nc - 1)
    if w.symbolic:
        w.assume(ic < w.size(nc))
    names = ['wct', 'flexure'] if what == 'grid' else ['hRe', 'hIm', 'URe', 'UIm', 'VRe', 'VIm']
    x, y = w.array('x', (nx,)), w.array('y', (ny,))
    V = {k: w.array(k, (ny, nx) if what == 'grid' else (nc, ny, nx)) for k in names}
    if what == 'grid':
        V['mask'] = w.array('mask', (ny, nx), kind='I', lo=0, hi=1)
        if not w.symbolic:
            for k in names:
                for p in np.ndindex(ny, nx):
                    if w.rng.random() < 0.3:
                        V[k][p] = 0
    name = 'read_netcdf_grid' if what == 'grid' else 'read_netcdf_file'
    read = w.get('pyTMD.io.OTIS.' + name)
    call = lambda f: read(f) if what == 'grid' else read(f, ic, variable=what)
    if w.symbolic:
        fill = w.const('9.96921e36')
        vs = {k: Variable(masked_var(w, v, fill)) for k, v in V.items()}
        vs.update(x=Variable(masked_var(w, x, fill)), y=Variable(masked_var(w, y, fill)))
        ds = Dataset(dict(x=w.size(nx), y=w.size(ny)), vs)
        r = call(stub_netcdf(w, 'OTIS', ds))
        w.true('closed', ds.closed)
    else:
        with scratch() as d:
            dims = ('y', 'x') if what == 'grid' else ('c', 'y', 'x')
            vs = {k: (dims, v, None) for k, v in V.items()}
            vs.update(x=(('x',), x, None), y=(('y',), y, None))
            r = call(on_disk(w, d, dict(x=nx, y=ny, c=nc), vs))
    if what == 'grid':
        gx, gy, hz, mz, sf = r
        w.eq('x', gx, x)
        w.eq('y', gy, y[::-1])
        w.shape_eq('shape', hz, (ny, nx))
        d, s = V['wct'][::-1, :], V['flexure'][::-1, :] / 100
        w.eq('depth', w.data(hz), d)
        w.eq('mask of depth', w.mask(hz), d == 0)
        w.eq('ocean mask', w.data(mz), V['mask'][::-1, :])
        w.eq('flexure', w.data(sf), s, where=s != 0)
        w.eq('mask of flexure', w.mask(sf), s == 0)
        return
    k = what.upper() if what != 'z' else 'h'
    re, im = V[k + 'Re'][ic, :, :][::-1, :], V[k + 'Im'][ic, :, :][::-1, :]
    w.shape_eq('shape', r, (ny, nx))
    w.eq('in phase', w.data(r).real, re)
    w.eq('quadrature', w.data(r).imag, -im)
    w.true('nothing is masked', ~w.mask(r))


@contract('P24', 'ATLAS netCDF files', functions=['io.ATLAS.read_netcdf_grid', 'io.ATLAS.read_netcdf_file', 'io.ATLAS.read_netcdf_elevation', 'io.ATLAS.read_netcdf_transport'], params=product(what=['grid', 'file'], type=['z', 'u', 'U', 'v', 'V'], compressed=[False, True]), assumes=NC, tol=1e-6, trials=6)
def atlas_netcdf(w, what, type, compressed):
    """coordinates and bathymetry of the nodes of the variable; constituents by name as
    in-phase and quadrature components of the variable"""
    np = w.np
    nx, ny = w.dim('nx', lo=1), w.dim('ny', lo=1)
    w.differ(nx, ny)
    V = {}
    for t in 'zuv':
        V['lon_' + t], V['lat_' + t] = w.array('lon_' + t, (nx,)), w.array('lat_' + t, (ny,))
        V['h' + t] = w.array('h' + t, (nx, ny))
    for t in 'huv':
        V[t + 'Re'], V[t + 'Im'] = w.array(t + 'Re', (nx, ny), lo=-50, hi=50), w.array(t + 'Im', (nx, ny), lo=-50, hi=50)
    con = 'eps2' if w.symbolic else w.rng.choice(CONS)
    if not w.symbolic:
        for t in 'zuv':
            for p in np.ndindex(nx, ny):
                if w.rng.random() < 0.3:
                    V['h' + t][p] = 0
    keys = [k for k in V if (k[0] == 'l' or k in ('hz', 'hu', 'hv')) == (what == 'grid')]
    t = type.lower()
    read = w.get('pyTMD.io.ATLAS.read_netcdf_' + what)
    if w.symbolic:
        fill = w.const('0')
        vs = {k: Variable(masked_var(w, V[k], fill)) for k in keys}
        vs['con'] = Variable(char(con))
        ds = Dataset(dict(nx=w.size(nx), ny=w.size(ny)), vs)
        r = read(stub_netcdf(w, 'ATLAS', ds, compressed=compressed), type, compressed=compressed)
        w.true('closed', ds.closed)
    else:
        with scratch() as d:
            fill = w.rng.choice([None, 0.0])
            vs = {k: (('nx',) if k.startswith('lon') else ('ny',) if k.startswith('lat') else ('nx', 'ny'), V[k], fill if k[0] == 'h' else None) for k in keys}
            vs['con'] = (('nct',), char(con), None)
            r = read(on_disk(w, d, dict(nx=nx, ny=ny, nct=4), vs, compressed), type, compressed=compressed)
    if what == 'grid':
        lon, lat, b = r
        w.eq('longitude', w.data(lon), V['lon_' + t])
        w.eq('latitude', w.data(lat), V['lat_' + t])
        w.shape_eq('shape', b, (ny, nx))
        w.eq('bathymetry', w.data(b), V['h' + t].T)
        w.eq('mask', w.mask(b), V['h' + t].T == 0)
        return
    hc, c = r
    t = 'h' if t == 'z' else t
    w.true('constituent', c == con)
    w.shape_eq('shape', hc, (ny, nx))
    w.eq('in phase', w.data(hc).real, V[t + 'Re'].T)
    w.eq('quadrature', w.data(hc).imag, V[t + 'Im'].T)
    w.true('nothing is masked', ~w.mask(hc))


KEYS = {'GOT': ('longitude', 'latitude', 'amplitude', 'phase')}
for v in ('FES2012', 'FES2014', 'FES2022', 'EOT20'):
    for t in 'zuv':
        KEYS[v, t] = ('lon', 'lat') + (('amplitude', 'phase') if t == 'z' and v != 'FES2012' else tuple(dict(z='H', u='U', v='V')[t] + c for c in 'ag'))
for t, a in dict(z=('AMPL', 'PHAS'), u=('UAMP', 'UPHA'), v=('VAMP', 'VPHA')).items():
    KEYS['HAMTIDE11', t] = ('LON', 'LAT') + a


@contract('P24', 'GOT and FES netCDF files', functions=['io.GOT.read_netcdf_file', 'io.FES.read_netcdf_file'], params=[dict(model=k if k == 'GOT' else '%s %s' % k, compressed=c) for k in KEYS for c in (False, True)], assumes=NC, tol=1e-6, trials=6)
def phase_netcdf(w, model, compressed):
    """complex constants of the amplitudes and phases of the file, in the layout of each
    model; nodes with fill values are masked"""
    np = w.np
    mod = model[:3] if model[:3] == 'GOT' else 'FES'
    key = model if mod == 'GOT' else tuple(model.split())
    nx, ny = w.dim('nx', lo=1), w.dim('ny', lo=1)
    w.differ(nx, ny)
    x, y = w.array('lon', (nx,), lo=-180, hi=360), w.array('lat', (ny,), lo=-90, hi=90)
    A, P = w.array('amplitude', (ny, nx), nan=True), w.array('phase', (ny, nx), nan=True)
    fa, fp = w.real('fill of amplitude', lo=99, hi=99999), w.real('fill of phase', lo=999, hi=99999)
    if not w.symbolic:
        A, P = abs(A), P * 18
        for p in np.ndindex(ny, nx):
            k = w.rng.random()
            if k < 0.4:
                A[p], P[p] = w.rng.choice([(fa, fp), (fa, P[p]), (A[p], fp), (0, 0), (0, P[p]), (A[p], 0), (np.nan, P[p]), (A[p], np.nan)])
    names = KEYS[key]
    values = dict(zip(names, (x, y, A, P)))
    con = 'M2' if w.symbolic else w.rng.choice([c for c in CONS if c not in ('lam2', 'msqm')]).upper()
    kw = dict(compressed=compressed) if mod == 'GOT' else dict(compressed=compressed, version=key[0], type=key[1])
    read = w.get('pyTMD.io.%s.read_netcdf_file' % mod)
    fills = dict(zip(names, (None, None, fa, fp)))
    if w.symbolic:
        vs = {k: Variable(masked_var(w, v, w.const('9.96921e36') if fills[k] is None else fills[k])) for k, v in values.items()}
        ds = Dataset({}, vs, Constituent=con)
        r = read(stub_netcdf(w, mod, ds, compressed=compressed), **kw)
        w.true('closed', ds.closed)
    else:
        # another variable in the file
        with scratch() as d:
            vs = {k: ((names[0],) if k == names[0] else (names[1],) if k == names[1] else (names[1], names[0]), v, fills[k]) for k, v in values.items()}
            r = read(on_disk(w, d, {names[0]: nx, names[1]: ny}, vs, compressed, Constituent=con), **kw)
    if mod == 'GOT':
        w.true('constituent', r[3] == con.lower())
    hc, lon, lat = r[:3]
    w.eq('longitude', w.data(lon), x)
    w.eq('latitude', w.data(lat), y)
    bad = (A == fa) | (P == fp) | np.isnan(A) | np.isnan(P)
    if mod == 'FES':
        bad = bad | ((A == 0) & (P == 0))
    w.shape_eq('shape', hc, (ny, nx))
    w.eq('mask', w.mask(hc), bad)
    z = np.ma.array(A, mask=bad), np.ma.array(P, mask=bad)
    w.eq('in phase', w.data(hc).real, A * np.cos(P * np.pi / 180), where=~bad)
    w.eq('quadrature', w.data(hc).imag, -A * np.sin(P * np.pi / 180), where=~bad)


# -------------------------------------------------------------------- outputs
def saved(w, mod, f, back=None):
    """variables, dimensions and attributes of the netCDF file that f writes, and what
    back reads from it"""
    if w.symbolic:
        ds = Dataset()
        f(stub_netcdf(w, mod, ds, 'w'))
        w.true('closed', ds.closed)
        return ({k: (v.dims, v.value, v.fill, v.attrs) for k, v in ds.variables.items()}, {k: v.size for k, v in ds.dimensions.items()},
                {k: v for k, v in vars(ds).items() if k not in ('dimensions', 'variables', 'closed')}), None
    import netCDF4
    with scratch() as d:
        p = os.path.join(d, 'out.nc')
        f(p)
        out = {}
        with netCDF4.Dataset(p) as nc:
            for k, v in nc.variables.items():
                v.set_auto_mask(False)
                v.set_auto_chartostring(False)
                out[k] = (v.dimensions, v[...], getattr(v, '_FillValue', None), {a: v.getncattr(a) for a in v.ncattrs()})
            dims = {k: v.size for k, v in nc.dimensions.items()}
            attrs = {a: nc.getncattr(a) for a in nc.ncattrs()}
        return (out, dims, attrs), back(p) if back else None


def stored(w, label, var, dims, value, units=None):
    d, v, fill, attrs = var
    w.true(label + ': dimensions', tuple(d) == dims)
    w.shape_eq(label + ': shape', v, w.np.shape(value))
    w.eq(label, w.data(v), value)
    if units:
        w.true(label + ': units', attrs.get('units') == units)
    return fill


@contract('P24', 'ATLAS netCDF outputs', functions=['io.ATLAS.output_netcdf_grid', 'io.ATLAS.output_netcdf_elevation', 'io.ATLAS.output_netcdf_transport'], params=product(what=['grid', 'elevation', 'transport']), assumes=NC, tol=1e-6, trials=8)
def atlas_output(w, what):
    """files hold what was given, and read back as it"""
    np = w.np
    nx, ny = w.dim('nx', lo=1), w.dim('ny', lo=1)
    w.differ(nx, ny)
    con = 'eps2' if w.symbolic else w.rng.choice(CONS)
    types_ = dict(grid='zuv', elevation='z', transport='uv')[what]
    V = {}
    for t in types_:
        V['lon_' + t], V['lat_' + t] = w.array('lon_' + t, (nx,)), w.array('lat_' + t, (ny,))
        V[t] = w.array('field ' + t, (ny, nx), kind='R' if what == 'grid' else 'C')
    if not w.symbolic:
        for t in types_:
            for p in np.ndindex(ny, nx):
                if w.rng.random() < 0.2:
                    V[t][p] = 0
    axes = [V[a + t] for t in types_ for a in ('lon_', 'lat_')]
    snap = w.snapshot(*V.values())
    out = w.get('pyTMD.io.ATLAS.output_netcdf_' + what)
    args = [V[t] for t in types_] + axes + ([] if what == 'grid' else [con])

    def back(p):
        R = w.get('pyTMD.io.ATLAS.read_netcdf_' + ('grid' if what == 'grid' else 'file'))
        return {t: R(p, t) for t in types_}
    (vs, dims, attrs), again = saved(w, 'ATLAS', lambda p: out(p, *args), back)
    w.true('size of the grid', (dims['nx'] == w.size(nx)) & (dims['ny'] == w.size(ny)))
    for t in types_:
        k = 'h' if what == 'elevation' else t
        stored(w, 'longitude', vs['lon_' + t], ('nx',), V['lon_' + t], 'degrees_east')
        stored(w, 'latitude', vs['lat_' + t], ('ny',), V['lat_' + t], 'degrees_north')
        fields = [('h' + t, V[t])] if what == 'grid' else [(k + 'Re', V[t].real), (k + 'Im', V[t].imag)]
        for n, v in fields:
            fill = stored(w, n, vs[n], ('nx', 'ny'), v.T)
            w.true('fill value', fill is not None and fill == 0)
        if again:
            if what == 'grid':
                w.eq('longitude that is read', again[t][0], V['lon_' + t])
                w.eq('latitude that is read', again[t][1], V['lat_' + t])
                w.eq('mask that is read', again[t][2].mask, V[t] == 0)
            w.eq('field that is read', again[t][-1 if what == 'grid' else 0].data, V[t])
            if what != 'grid':
                w.true('constituent that is read', again[t][1] == con)
    if what != 'grid':
        w.true('constituent', vs['con'][0] == ('nct',) and w_text(vs['con'][1]) == con)
    w.unchanged('inputs', snap)


def w_text(v):
    import numpy
    return numpy.asarray(v).tobytes().decode().strip()


@contract('P24', 'GOT and FES netCDF outputs', functions=['io.GOT.output_netcdf_file', 'io.FES.output_netcdf_file'], params=product(model=['GOT', 'FES z', 'FES u', 'FES v']), assumes=NC, tol=1e-6, trials=8)
def phase_output(w, model):
    """amplitudes and phases of the complex constants, missing where they are masked,
    under the names that readers of the model use"""
    np = w.np
    mod = model[:3]
    nx, ny = w.dim('nx', lo=1), w.dim('ny', lo=1)
    w.differ(nx, ny)
    lon, lat = w.array('lon', (nx,)), w.array('lat', (ny,))
    hc = w.masked('hc', (ny, nx), 'C')
    con = 'm2' if w.symbolic else w.rng.choice([c for c in CONS if c not in ('lam2', 'msqm')])
    key = 'GOT' if mod == 'GOT' else ('FES2014', model[-1])
    kw = {} if mod == 'GOT' else dict(type=model[-1])
    snap = w.snapshot(hc, lon, lat)
    D, M = w.data(hc).copy(), w.mask(hc).copy()
    if not w.symbolic:
        hc.set_fill_value(w.rng.choice([1e20, 9999.0]))
    out = w.get('pyTMD.io.%s.output_netcdf_file' % mod)

    def back(p):
        return w.get('pyTMD.io.%s.read_netcdf_file' % mod)(p, **(dict(version='FES2014', **kw) if kw else {}))
    (vs, dims, attrs), again = saved(w, mod, lambda p: out(p, hc, lon, lat, con, **kw), back)
    x, y, a, p = KEYS[key]
    w.true('size of the grid', (dims[x] == w.size(nx)) & (dims[y] == w.size(ny)))
    stored(w, 'longitude', vs[x], (x,), lon, 'degrees_east')
    stored(w, 'latitude', vs[y], (y,), lat, 'degrees_north')
    A, P = w.data(vs[a][1]), w.data(vs[p][1])
    for v in (vs[a], vs[p]):
        w.true('dimensions', tuple(v[0]) == (y, x))
        w.shape_eq('shape', v[1], (ny, nx))
        w.true('fill value', v[2] is not None)
        w.eq('missing', w.data(v[1]) == v[2] if not w.symbolic else w.mask(v[1]), M)
    w.true('amplitude is not negative', A >= 0, where=~M)
    w.eq('in phase', A * np.cos(P * np.pi / 180), D.real, where=~M)
    w.eq('quadrature', -A * np.sin(P * np.pi / 180), D.imag, where=~M)
    if mod == 'GOT':
        w.true('phase', (P >= 0) & (P <= 360), where=~M)
        w.true('constituent', attrs['Constituent'] == con.upper())
    else:
        w.true('constituent', vs['con'][0] == ('nct',) and w_text(vs['con'][1]) == con)
    if again:
        z = again[0]
        w.eq('mask that is read', np.ma.getmaskarray(z), M | ((D == 0) if mod == 'FES' else False))
        w.eq('constants that are read', np.asarray(z.data), D, where=~np.ma.getmaskarray(z))
        w.eq('longitude that is read', np.asarray(again[1]), lon)
        w.eq('latitude that is read', np.asarray(again[2]), lat)
        if mod == 'GOT':
            w.true('constituent that is read', again[3] == con)
    w.unchanged('inputs', snap)


# ---------------------------------------------------------------- OTIS outputs
def words(b):
    """integers and numbers at each 4 bytes of a file"""
    n = len(b) // 4
    return struct.unpack('>%di' % n, b[:4 * n]), struct.unpack('>%df' % n, b[:4 * n])


class Reader:
    """records of a file"""

    def __init__(self, w, b):
        self.w, self.b, self.p = w, b, 0

    def record(self, n=None):
        (k,) = struct.unpack('>i', self.b[self.p:self.p + 4])
        r = self.b[self.p + 4:self.p + 4 + k]
        self.w.true('length of a record', n is None or k == n)
        self.w.true('length after a record', struct.unpack('>i', self.b[self.p + 4 + k:self.p + 8 + k]) == (k,))
        self.p += k + 8
        return r

    def end(self):
        self.w.true('end of the file', self.p == len(self.b))


@contract('P24', 'OTIS outputs', functions=['io.OTIS.output_otis_grid', 'io.OTIS.output_otis_elevation', 'io.OTIS.output_otis_transport'], params=product(what=['grid', 'elevation', 'transport'], dtype=['f8', 'f4', '>f4']), bounded=True, tol=1e-6, trials=10)
def otis_output(w, what, dtype):
    """the records of the file (checked byte by byte), and what the readers return"""
    np = w.np
    nx, ny = w.dim('nx', lo=1), w.dim('ny', lo=1)
    xlim, ylim = single(w, 'xlim', (2,), lo=0, hi=360).astype(dtype), single(w, 'ylim', (2,), lo=-90, hi=90).astype(dtype)
    M = 'pyTMD.io.OTIS.'
    with scratch() as d:
        f = os.path.join(d, 'out')
        if what == 'grid':
            hz = single(w, 'hz', (ny, nx), lo=0, hi=5000).astype(dtype)
            mz = (w.array('mz', (ny, nx), kind='I', lo=0, hi=1) * w.rng.choice([1, 1, -3])).astype(w.rng.choice(['i4', 'i8', '>i4', 'i2', 'f8']))
            if w.rng.random() < 0.3:
                hz, mz = np.asfortranarray(hz), mz.copy(order='F')
            nob = w.rng.choice([0, 0, 1, 3])
            iob = w.array('iob', (nob, 2), kind='I', lo=1, hi=50).astype(w.rng.choice(['i4', 'i8', '>i4'])) if nob else []
            dt = w.rng.choice([0.0, 12.0, 4.5])
            w.get(M + 'output_otis_grid')(f, xlim, ylim, hz, mz, iob, dt)
            with open(f, 'rb') as fid:
                r = Reader(w, fid.read())
            b = r.record(32)
            ints, nums = words(b)
            w.true('size', ints[:2] == (nx, ny))
            w.eq('limits and time step', np.array(nums[2:7]), np.array([*ylim, *xlim, dt], dtype=float))
            w.true('number of boundary nodes', ints[7] == nob)
            b = r.record(8 * nob if nob else 4)
            w.true('boundary nodes', words(b)[0] == (tuple(int(v) for v in np.ravel(iob)) if nob else (0,)))
            w.eq('bathymetry', np.array(words(r.record(4 * nx * ny))[1]).reshape(ny, nx), hz.astype(float))
            w.eq('mask', np.array(words(r.record(4 * nx * ny))[0]).reshape(ny, nx), mz.astype(float))
            r.end()
            x, y, h, m, ib, t = w.get(M + 'read_otis_grid')(f)
            w.eq('bathymetry that is read', h, hz.astype(float))
            w.eq('mask that is read', m, mz.astype(float))
            w.eq('x that is read', x, linear(w, float(xlim[0]), float(xlim[1]), nx), tol=1e-5)
            w.eq('y that is read', y, linear(w, float(ylim[0]), float(ylim[1]), ny), tol=1e-5)
            w.eq('time step that is read', t, dt)
            w.true('boundary that is read', [list(map(int, q)) for q in ib] == [list(map(int, q)) for q in iob])
            return
        names = w.rng.sample(CONS, w.rng.randint(1, 4))
        parts = 2 if what == 'elevation' else 4
        Z = []
        for k in range(parts // 2):
            re, im = component(w, 'z%d' % k, (ny, nx, len(names)))
            z = re + 1j * im
            z.imag = im
            z.real = re
            Z.append(z.astype(dict(f8='c16').get(dtype, dtype.replace('f4', 'c8'))))
        form = w.rng.choice(['plain', 'masked'])
        args = [np.ma.array(z, mask=np.isnan(z)) for z in Z] if form == 'masked' else Z
        w.get(M + 'output_otis_' + what)(f, *args, xlim, ylim, names)
        with open(f, 'rb') as fid:
            r = Reader(w, fid.read())
        b = r.record(4 * (7 + len(names)))
        ints, nums = words(b)
        w.true('size', ints[:3] == (nx, ny, len(names)))
        w.eq('limits', np.array(nums[3:7]), np.array([*ylim, *xlim], dtype=float))
        w.true('names', [b[28 + 4 * k:32 + 4 * k].decode().strip() for k in range(len(names))] == names)
        cons, n = w.get(M + 'read_constituents')(f)
        w.true('names that are read', list(cons) == names and n == len(names))
        for ic in range(len(names)):
            v = np.array(words(r.record(4 * parts * nx * ny))[1]).reshape(ny, nx, parts)
            got = w.get(M + 'read_otis_' + what)(f, ic)
            got = [got] if what == 'elevation' else got
            for k, z in enumerate(Z):
                z = z[:, :, ic]
                ok = ~np.isnan(z)
                w.eq('real part', v[:, :, 2 * k], z.real, where=ok)
                w.eq('imaginary part', v[:, :, 2 * k + 1], z.imag, where=ok)
                w.true('missing', (np.isnan(v[:, :, 2 * k]) | np.isnan(v[:, :, 2 * k + 1])) == ~ok)
                w.eq('mask that is read', got[k].mask, ~ok)
                w.eq('values that are read', got[k].data, z, where=ok)
        r.end()


@contract('P24', 'records of OTIS outputs', functions=['io.OTIS.output_otis_grid', 'io.OTIS.output_otis_elevation', 'io.OTIS.output_otis_transport'], params=[dict(what='grid', nob=n) for n in (0, 1, 2)] + [dict(what=t, nob=None) for t in ('elevation', 'transport')], assumes=('binary files as sequences of the numbers written (open, write, struct.pack, ndarray.tofile); rounding to single precision',), trials=4)
def otis_records(w, what, nob):
    """what the bytes of the file at every position stand for: header, names, and the
    records of each constituent (or of the bathymetry and mask) in the order of the
    readers"""
    np = w.np
    nx, ny = w.dim('nx', lo=1), w.dim('ny', lo=1)
    w.differ(nx, ny)
    X, Y = w.size(nx), w.size(ny)
    xlim, ylim = single(w, 'xlim', (2,), lo=0, hi=360), single(w, 'ylim', (2,), lo=-90, hi=90)
    run = w.get('pyTMD.io.OTIS.output_otis_' + what)
    nodes = X * np.arange(ny)[:, None] + np.arange(nx)[None, :]
    if what == 'grid':
        hz, mz = single(w, 'hz', (ny, nx), lo=0, hi=5000), w.array('mz', (ny, nx), kind='I', lo=0, hi=1)
        dt = w.real('dt', lo=0, hi=100)
        if nob == 2:
            nob = w.dim('nob', lo=2)
            w.differ(nob, nx)
            w.differ(nob, ny)
        iob = w.array('iob', (nob, 2), kind='I', lo=1, hi=5000) if nob != 0 else []
        B = w.size(nob)
        args = (xlim, ylim, hz, mz, iob, dt)
    else:
        nc = w.dim('nc', lo=1)
        w.differ(nc, nx)
        w.differ(nc, ny)
        C = w.size(nc)
        parts = 2 if what == 'elevation' else 4
        Z = [w.array(k, (ny, nx, nc), kind='C', lo=-50, hi=50) for k in 'uv'[:parts // 2]]
        if w.symbolic:
            from pyvc import vfile
            names = w.opaque_names('names', nc, vfile.WName)
        else:
            names = w.rng.sample(CONS, nc)
        args = (*Z, xlim, ylim, names)
    if w.symbolic:
        fid, path = writable(w, 'OTIS')
        run(path, *args)
        w.true('closed', fid.closed)
        total = fid.tell()
        whole = lambda label, o, form='>i4': laid(w, label, fid, form, o)
        number = lambda label, o: laid(w, label, fid, '>f4', o)
    else:
        with scratch() as d:
            f = os.path.join(d, 'out')
            run(f, *args)
            with open(f, 'rb') as fid:
                b = fid.read()
        total = len(b)
        at = lambda o, c: np.array([struct.unpack('>' + c, b[int(k):int(k) + 4].ljust(4, b'\x7f'))[0] for k in np.ravel(o)]).reshape(np.shape(o))
        whole = lambda label, o, form='>i4': at(o, 'i') if form == '>i4' else at(o, '4s')
        number = lambda label, o: at(o, 'f')
    S = 1e-6
    word = lambda label, o, v: w.eq(label, whole(label, o), v)
    if what == 'grid':
        w.eq('size in the file', np.asarray([whole('nx', 4), whole('ny', 8)]), np.asarray([X, Y]))
        w.eq('limits', number('limits', 12 + 4 * np.arange(4)), np.concatenate([ylim, xlim]), tol=S)
        w.eq('time step', number('time step', 28), dt, tol=S)
        word('number of boundary nodes', 32, B)
        word('length of the header', 0, 32)
        word('length of the header after it', 36, 32)
        o = 40
        if nob == 0:
            word('no boundary nodes', 44, 0)
            n = 4
        else:
            w.eq('boundary nodes', whole('boundary nodes', 44 + 8 * np.arange(nob)[:, None] + 4 * np.arange(2)[None, :]), iob)
            n = 8 * B
        word('length of the boundary', o, n)
        word('length of the boundary after it', o + 4 + n, n)
        o = o + 8 + n
        for k, (label, v) in enumerate((('bathymetry', hz), ('mask', mz))):
            get = number if k == 0 else whole
            word('length of the ' + label, o, 4 * X * Y)
            w.eq(label, get(label, o + 4 + 4 * nodes), v, tol=S)
            word('length after the ' + label, o + 4 + 4 * X * Y, 4 * X * Y)
            o = o + 8 + 4 * X * Y
        w.eq('size of the file', total, o)
        return
    head = 4 * (7 + C)
    word('length of the header', 0, head)
    word('length of the header after it', 4 + head, head)
    w.eq('sizes in the file', np.asarray([whole('nx', 4), whole('ny', 8), whole('nc', 12)]), np.asarray([X, Y, C]))
    w.eq('limits', number('limits', 16 + 4 * np.arange(4)), np.concatenate([ylim, xlim]), tol=S)
    got = whole('names', 32 + 4 * np.arange(nc), form='|S4')
    if w.symbolic:
        w.eq('names', got, np.arange(nc))
    else:
        w.true('names', [v.decode('latin-1') for v in got] == [c.ljust(4) for c in names])
    size = 4 * parts * X * Y
    start = 8 + head + (8 + size) * np.arange(nc)
    word('lengths of the constituents', start, size + 0 * start)
    word('lengths after the constituents', start + 4 + size, size + 0 * start)
    o = start[None, None, :] + 4 + 4 * parts * nodes[:, :, None]
    for k, z in enumerate(Z):
        w.eq('real part of constituents', number('real part', o + 8 * k), z.real, tol=S)
        w.eq('imaginary part of constituents', number('imaginary part', o + 8 * k + 4), z.imag, tol=S)
    w.eq('size of the file', total, 8 + head + (8 + size) * C)


# ----------------------------------------------------------------- text files
@contract('P24', 'GOT and FES text files', functions=['io.GOT.read_ascii_file', 'io.FES.read_ascii_file'], params=product(model=['GOT', 'FES'], compressed=[False, True]), bounded=True, tol=2e-5, trials=12)
def text_files(w, model, compressed):
    """amplitudes and phases of any number of longitudes per latitude, a line holding up
    to 11 (GOT) or 30 (FES) of them; nodes with fill values are masked"""
    np, r = w.np, w.rng
    per = 11 if model == 'GOT' else 30
    nlon = r.choice([per, 2 * per, r.randint(2, per - 1), r.randint(per + 1, 3 * per), 3 * per, per + 1, per - 1])
    nlat = r.randint(2, 6)
    w._log('nlon', nlon)
    w._log('nlat', nlat)
    A, P = np.round(w.array('A', (nlat, nlon), lo=0, hi=300), 2), np.round(w.array('P', (nlat, nlon), lo=-180, hi=360), 2)
    fill = 999.0 if model == 'GOT' else 9999.0
    gaps = np.array([[r.random() < 0.2 for _ in range(nlon)] for _ in range(nlat)])
    half = r.choice(['both', 'both', 'amplitudes', 'phases'])
    if half != 'phases':
        A[gaps] = fill
    if half != 'amplitudes':
        P[gaps] = fill
    lat = (r.randint(-90, 0), r.randint(1, 90))
    lon = (r.randint(0, 10), r.randint(100, 360))
    con = r.choice(['m2', 'k1', 'q1', 's2', '2n2'])
    rows = lambda v: [' '.join('%7.2f' % e for e in row[k:k + per]) for row in v for k in range(0, nlon, per)]
    if model == 'GOT':
        head = lambda what: ['%s  ocean tide  %s (cm)' % (con.upper(), what), 'GOT model', '%8d %8d' % (nlat, nlon), '%10.4f %10.4f' % lat, '%10.4f %10.4f' % lon, '%8.2f %8.2f' % (fill, fill), '(11f7.2)']
        lines = head('amplitude') + rows(A) + head('phase') + rows(P)
    else:
        d = lambda l, n: (l[1] - l[0]) / (n - 1)
        lines = ['%g %g' % lon, '%g %g' % lat, '%.9f %.9f' % (d(lon, nlon), d(lat, nlat)), '%d %d' % (nlon, nlat), '%.2f %.2f' % (fill, fill)]
        for a, p in zip(A, P):
            for x, y in zip(rows([a]), rows([p])):
                lines += [x, y]
    with scratch() as d:
        f = os.path.join(d, 'model.d')
        opener = (lambda: gzip.open(f, 'wt', encoding='utf8')) if compressed else (lambda: open(f, 'w', encoding='utf8'))
        with opener() as fid:
            fid.write('\n'.join(lines) + '\n')
        got = w.get('pyTMD.io.%s.read_ascii_file' % model)(f, compressed=compressed)
    hc, x, y = got[:3]
    if model == 'GOT':
        w.true('constituent', got[3] == con)
    w.eq('longitudes', x, lon[0] + (lon[1] - lon[0]) * np.arange(nlon) / (nlon - 1))
    w.eq('latitudes', y, lat[0] + (lat[1] - lat[0]) * np.arange(nlat) / (nlat - 1))
    w.shape_eq('shape', hc, (nlat, nlon))
    w.eq('mask', np.ma.getmaskarray(hc), gaps)
    w.eq('constants', hc.data, A * np.exp(-1j * np.radians(P)), where=~gaps)


# -------------------------------------------------- ATLAS-compact combinations
@contract('P24', 'resampling of ATLAS-compact models', functions=['io.OTIS.interpolate_atlas_model'], params=product(kind=['R', 'C'], masked=[True, False]), tol=2e-6, trials=4,
          assumes=['scipy RectBivariateSpline of first order is the bilinear interpolant, the border cells continued as constants (its arguments are proved; natively it is compared with the formula)'])
def atlas_resampling(w, kind, masked):
    """bilinear interpolation of the nodes at the centers of the cells of a finer grid; the
    nearest value of the model continues outside of its nodes"""
    np = w.np
    if w.symbolic:
        nx, ny, M = w.dim('nx', lo=2), w.dim('ny', lo=2), w.dim('M', lo=1)
        w.differ(nx, ny)
        xi, yi = w.axis('x', nx, lo=0, hi=360), w.axis('y', ny, lo=-90, hi=90)
        spacing = 180 / w.size(M)
        made = []

        class Spline:
            def __init__(self, x, y, f, kx=3, ky=3, **kw):
                self.args, self.orders, self.k = (x, y, f), (kx, ky), len(made)
                w.true('no other options', not kw)
                made.append(self)

            def __call__(self, p, q):
                self.at = (p, q)
                self.s = w.array('s%d' % self.k, w.np.shape(p) + w.np.shape(q))
                return self.s
        w.stub('scipy.interpolate.RectBivariateSpline', Spline)
    else:
        r = w.rng
        nx, ny, M = r.choice([4, 6, 12]), r.choice([3, 6, 9]), r.choice([24, 18, 12, 15])
        xi, yi = (np.arange(nx) + 0.5) * 360 / nx, -90 + (np.arange(ny) + 0.5) * 180 / ny
        spacing = 180.0 / M
    N = np.shape(np.arange(2 * w.size(M)))[0]
    X, Y = spacing / 2 + spacing * np.arange(2 * w.size(M)), -90 + spacing / 2 + spacing * np.arange(w.size(M))
    z = w.array('z', (ny, nx), kind=kind)
    zi = np.ma.array(z, mask=np.zeros(z.shape, dtype=bool)) if masked else z
    snap = w.snapshot(xi, yi, zi)
    xs, ys, zs = w.get('pyTMD.io.OTIS.interpolate_atlas_model')(xi, yi, zi, spacing=spacing)
    w.shape_eq('shape', zs, (M, N))
    w.eq('x', xs, X)
    w.eq('y', ys, Y)
    w.true('nothing is masked', ~w.mask(zs))
    w.unchanged('inputs', snap)
    if w.symbolic:
        fs = [z.real, z.imag] if kind == 'C' else [z]
        w.true('interpolants', len(made) == len(fs))
        for s, f, v in zip(made, fs, [zs.data.real, zs.data.imag] if kind == 'C' else [zs.data]):
            w.true('bilinear', s.orders == (1, 1))
            w.eq('first axis', s.args[0], xi)
            w.eq('second axis', s.args[1], yi)
            w.eq('nodes', w.data(s.args[2]), np.transpose(f))
            w.eq('at x', s.at[0], X)
            w.eq('at y', s.at[1], Y)
            w.eq('values', v, np.transpose(s.s))
        return

    def weights(v, n):
        v = np.clip(v, 0, n - 1)
        k = np.minimum(np.floor(v).astype(int), n - 2)
        return k, v - k
    i, s = weights((X - xi[0]) / (xi[1] - xi[0]), nx)
    j, t = weights((Y - yi[0]) / (yi[1] - yi[0]), ny)
    s, t = s[None, :], t[:, None]
    g = lambda a, b: z[np.ix_(j + a, i + b)]
    w.eq('values', zs.data, (1 - t) * ((1 - s) * g(0, 0) + s * g(0, 1)) + t * ((1 - s) * g(1, 0) + s * g(1, 1)))


@contract('P24', 'local solutions of ATLAS-compact models', functions=['io.OTIS.combine_atlas_model', 'io.OTIS.create_atlas_mask'], params=product(variable=['depth', 'z', 'u']), bounded=True, tol=1e-6, trials=1)
def atlas_local(w, variable):
    """local solutions replace the global one (and are ocean) at their cells of the
    2 arc-minute grid, in any convention of longitudes; other cells keep it.  The
    limits of a local solution, rounded down to 2 arc-minutes, are the upper edges of
    its first cell (as the code reads them; no documentation of the limits is here)"""
    np, r = w.np, w.rng
    nx, ny = 12, 6
    xi, yi = (np.arange(nx) + 0.5) * 30.0, -90 + (np.arange(ny) + 0.5) * 30.0
    kind = 'R' if variable == 'depth' else 'C'
    z = w.array('z', (ny, nx), kind=kind).astype('f4' if kind == 'R' else 'c8')
    mz = w.array('mz', (ny, nx), kind='I', lo=0, hi=1)
    zi = np.ma.array(z, mask=np.zeros(z.shape, dtype=bool))
    n = 1 / 30
    local, cells = {}, {}
    for name, i0, j0 in (('a', r.randint(30, 9000), r.randint(100, 5000)), ('b', -r.randint(5, 3000), r.randint(100, 5000))):
        a, b = r.randint(2, 5), r.randint(2, 5)
        v = np.ma.array(w.array('local ' + name, (b, a), kind=kind), mask=np.array([[r.random() < 0.4 for _ in range(a)] for _ in range(b)]))
        # limits of the first cells
        local[name] = {'lon': np.array([(i0 + 1.5) * n, (i0 + a + 0.5) * n]), 'lat': np.array([-90 + (j0 + 1.5) * n, -90 + (j0 + b + 0.5) * n]), variable: v}
        for j in range(b):
            for i in range(a):
                if not v.mask[j, i]:
                    cells[j0 + j, (i0 + i) % 10800] = v.data[j, i]
    M = 'pyTMD.io.OTIS.'
    m = w.get(M + 'create_atlas_mask')(xi, yi, mz, local, variable=variable)
    x, y = (np.arange(10800) + 0.5) * n, -90 + (np.arange(5400) + 0.5) * n
    w.shape_eq('shape of mask', m, (5400, 10800))
    w.eq('mask', m.mask, m.data == 0)
    X, Y = x[5::371], y[3::173]
    near = lambda v, q: np.argmin(abs(v[None, :] - q[:, None]), axis=1)
    E = mz[np.ix_(near(yi, Y), near(xi, X))]
    keep = np.array([[(3 + 173 * j, 5 + 371 * i) not in cells for i in range(len(X))] for j in range(len(Y))])
    # not between two cells
    for v, q, ax in ((xi, X, 1), (yi, Y, 0)):
        mid = (abs(((q - v[0]) / 30.0) % 1 - 0.5) < 1e-3)
        keep &= ~(mid[None, :] if ax else mid[:, None])
    w.eq('global mask', m.data[3::173, 5::371], E, where=keep)
    w.true('local mask', all(m.data[j, i] == 1 for j, i in cells))
    w.true('number of cells', int((m.data == 1).sum()) - len(cells) <= int((mz == 1).sum()) * 900 * 900 + 10)
    del m
    x, y, c = w.get(M + 'combine_atlas_model')(xi, yi, zi, None, local, variable=variable)
    w.eq('x', x, (np.arange(10800) + 0.5) * n)
    w.eq('y', y, -90 + (np.arange(5400) + 0.5) * n)
    w.shape_eq('shape', c, (5400, 10800))
    for (j, i), v in cells.items():
        w.eq('local solution', c.data[j, i], v)
    _, _, g = w.get(M + 'interpolate_atlas_model')(xi, yi, zi)
    d = c.data != g.data
    w.true('global solution elsewhere', int(d.sum()) == sum(c.data[j, i] != g.data[j, i] for j, i in cells))
