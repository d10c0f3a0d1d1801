"""Grids of the models: extension, shift, crop and staggered nodes"""
from pyvc.contract import contract, product

IO = 'pyTMD.io.'
MODELS = ['OTIS', 'ATLAS', 'GOT', 'FES']
EXTRA = {'OTIS': 1, 'ATLAS': 1, 'GOT': 2, 'FES': 1, 'IERS': 1}


def matrix(w, kind, shape):
    """kinds of matrices: real or complex, masked or not"""
    k = 'C' if kind[0] == 'c' else 'R'
    return w.masked('z', shape, kind=k) if kind.endswith('masked') else w.array('z', shape, kind=k)


def same(w, label, got, want_data, want_mask, masked):
    w.eq(label, w.data(got) if masked else got, want_data)
    if masked:
        w.eq(label + ': mask', w.mask(got), want_mask)
    elif not w.symbolic:
        w.true(label + ': not masked', not w.np.ma.isMA(got))


KINDS = ['real', 'complex', 'real masked', 'complex masked']


@contract('P19', 'extend_array', functions=['io.%s._extend_array' % m for m in EXTRA], params=product(model=list(EXTRA)), tol=1e-12)
def extend_array(w, model):
    """one step before, one (GOT: two) after"""
    n = w.dim('n')
    x, s = w.array('x', (n,), lo=-400, hi=400, whole=False), w.real('step', lo=-5, hi=5)
    snap = w.snapshot(x)
    got = w.get(IO + model + '._extend_array')(x, s)
    e = EXTRA[model]
    size = w.size(n)
    w.shape_eq('axis', got, (size + 1 + e,))
    k = w.np.arange(size)
    w.eq('first', got[0], x[0] - s)
    w.eq('nodes', got[k + 1], x)
    for j in range(e):
        w.eq('after', got[size + 1 + j], x[size - 1] + (j + 1) * s)
    w.unchanged('inputs', snap)


@contract('P19', 'extend_matrix', functions=['io.%s._extend_matrix' % m for m in EXTRA], params=product(model=list(EXTRA), kind=KINDS), tol=0)
def extend_matrix(w, model, kind):
    """columns continue around the globe"""
    masked = kind.endswith('masked') and model != 'IERS'
    ny, nx = w.dim('ny'), w.dim('nx')
    z = matrix(w, kind if model != 'IERS' else kind.split()[0], (ny, nx) if model != 'IERS' else (nx, ny))
    snap = w.snapshot(z)
    got = w.get(IO + model + '._extend_matrix')(z)
    e, n = EXTRA[model], w.size(nx)
    if model == 'IERS':
        got, z = got.T, z.T
    w.shape_eq('matrix', got, (w.size(ny), n + 1 + e))
    k = w.np.arange(n)
    d, m = (w.data(z), w.mask(z)) if masked else (z, None)
    at = lambda a, i: a[:, i] if a is not None else None
    same(w, 'before', at(got, 0), at(d, n - 1), at(m, n - 1), masked)
    same(w, 'columns', at(got, k + 1), at(d, k), at(m, k), masked)
    for j in range(e):
        same(w, 'after', at(got, n + 1 + j), at(d, j), at(m, j), masked)
    w.unchanged('inputs', snap)


def shift_args(w, model, x0, cyclic, direction):
    args = {} if direction == 'default' else dict(direction=direction)
    if x0 is not None:
        args['x0' if model == 'OTIS' else 'lon0'] = x0
    if cyclic is not None:
        args['cyclic'] = cyclic
    return args


@contract('P19', 'shift', functions=['io.%s._shift' % m for m in EXTRA], params=product(model=list(EXTRA), kind=['real', 'complex', 'real masked'], direction=['default', 'west', 'east']), tol=1e-12)
def shift(w, model, kind, direction):
    """columns from the one nearest to the base longitude onward come first; a
    repeated last meridian is dropped once; longitudes change by whole cycles"""
    np = w.np
    masked = kind.endswith('masked')
    ny, nx = w.dim('ny'), w.dim('nx', lo=2, hi=12)
    x = w.array('x', (nx,), lo=-180, hi=360, whole=False)
    if not w.symbolic:
        # a grid of longitudes, of the globe or of a part
        r = w.rng
        a, b = r.choice([(-180, 180), (0, 360), (-180, 540), (20, 200), (-100, -40), (185, 290)])
        if r.random() < 0.5:
            b += (b - a) / (nx - 1) * r.choice([0, -1])
        x[:] = np.linspace(a, b, nx)
    z = matrix(w, kind, (ny, nx) if model != 'IERS' else (nx, ny))
    x0, cyclic = (None, None) if direction == 'default' else (w.real('x0', lo=-180, hi=360), w.real('cyclic', lo=300, hi=400) if w.symbolic else 360)
    snap = w.snapshot(x, z)
    got, gx = w.get(IO + model + '._shift')(z, x, **shift_args(w, model, x0, cyclic, direction))
    x0, cyclic = (180, 360) if x0 is None else (x0, cyclic)
    if model == 'IERS':
        got, z = got.T, z.T
    n = w.size(nx)
    i0 = np.argmin(np.abs(x - x0))
    near = np.abs(np.abs(x[n - 1] - x[0] - cyclic) - w.const('1e-4'))
    w.assume(near > w.const('1e-9'))
    rep = w.ite(np.abs(x[n - 1] - x[0] - cyclic) > w.const('1e-4'), 0, 1)
    k = np.arange(n)
    first = k < n - i0
    src = w.ite(first, k + i0, w.ite(first, 0, k + i0 - n + rep))
    move = w.ite(first, 0, cyclic) if direction == 'east' else w.ite(first, -cyclic, 0)
    w.shape_eq('longitudes', gx, (n,))
    w.shape_eq('matrix', got, (w.size(ny), n))
    w.eq('longitudes', gx, x[src] + move)
    d, m = (w.data(z), w.mask(z)) if masked else (z, None)
    same(w, 'columns', got, d[:, src], m[:, src] if masked else None, masked)
    w.unchanged('inputs', snap)


@contract('P19', 'shift global', functions=['io.%s._shift' % m for m in EXTRA], params=product(model=list(EXTRA), repeated=[True, False], direction=['west', 'east']), tol=1e-9)
def shift_global(w, model, repeated, direction):
    """a uniform global grid stays uniform: the new longitudes go on by steps"""
    np = w.np
    nx = w.dim('nx', lo=4, hi=30)
    n = w.size(nx)
    a, x0 = w.real('a', lo=-180, hi=180), w.real('x0', lo=-180, hi=360)
    w.assume(n < 3000000)
    s = w.const('360') / (n - 1 if repeated else n)
    x = a + np.arange(n) * s
    if not w.symbolic:
        w.assume(x[0] <= x0 <= x[-1])
    z = w.array('z', (2, nx) if model != 'IERS' else (nx, 2))
    got, gx = w.get(IO + model + '._shift')(z, x, **shift_args(w, model, x0, w.const('360') if w.symbolic else 360, direction))
    k = np.arange(n)
    w.eq('uniform', gx[k], gx[0] + k * s)
    i0 = np.argmin(np.abs(x - x0))
    w.eq('starts at the base longitude', gx[0], x[i0] - (360 if direction == 'west' else 0))


@contract('P19', 'crop', functions=['io.%s._crop' % m for m in MODELS], params=product(model=MODELS, kind=['real', 'complex', 'real masked'], convention=['as is', 'west', 'east'], buffer=['default', 'given']), tol=1e-12)
def crop(w, model, kind, convention, buffer):
    """every node within the bounds (and buffer), in order, with its coordinates,
    in the longitude convention of the bounds"""
    np = w.np
    masked = kind.endswith('masked')
    ny, nx = w.dim('ny', lo=3, hi=12), w.dim('nx', lo=4, hi=16)
    x, y = w.array('x', (nx,), lo=-180, hi=360, whole=False), w.array('y', (ny,), lo=-90, hi=90, whole=False)
    b = [w.real('b%d' % i, lo=-180, hi=360) for i in range(4)]
    if not w.symbolic:
        r = w.rng
        lo, hi = {'as is': r.choice([(-180, 180), (0, 360), (150, 290)]), 'west': r.choice([(0, 360), (0.25, 359.75), (190, 300)]), 'east': r.choice([(-180, 180), (-179.5, 179.5), (-170, -20)])}[convention]
        x[:] = np.linspace(lo, hi, nx)
        y[:] = np.linspace(-90, 90, ny)
        t = {'as is': 0, 'west': -360, 'east': 360}[convention]
        p, q = sorted(r.uniform(lo, hi) for _ in range(2))
        b[:2] = [(p + t, q + t), (p + t, r.uniform(0, 170)), (r.uniform(-10, 180), q + t)][0 if convention == 'as is' or r.random() < 0.6 else 1 if convention == 'west' else 2]
        b[2:] = sorted(r.uniform(-90, 90) for _ in range(2))
        w.assume(b[0] <= b[1])
    z = matrix(w, kind, (ny, nx))
    snap = w.snapshot(x, y, z)
    n = w.size(nx)
    west, east = (min(b[:2]) < 0) & (x.max() > 180), (max(b[:2]) > 180) & (x.min() < 0)
    w.assume({'as is': ~west & ~east, 'west': west, 'east': ~west & east}[convention])
    c = w.real('buffer', lo=0, hi=20) if buffer == 'given' else 0
    kw = dict(buffer=c) if buffer == 'given' else {}
    sx, sz = x, z
    if convention != 'as is':
        sz, sx = w.get(IO + model + '._shift')(z, x, direction=convention, **shift_args(w, model, 180 if convention == 'west' else 0, 360, 'default'))
    inx, iny = (sx >= b[0] - c) & (sx <= b[1] + c), (y >= b[2] - c) & (y <= b[3] + c)
    w.assume(np.any(inx))
    w.assume(np.any(iny))
    jx, jy = np.flatnonzero(inx), np.flatnonzero(iny)
    if not w.symbolic:
        # a contiguous range of the longitudes
        w.assume(len(jx) == jx[-1] - jx[0] + 1)
    got, gx, gy = w.get(IO + model + '._crop')(z, x, y, b, **kw)
    i0, i1, j0, j1 = jx[0], jx[-1], jy[0], jy[-1]
    w.eq('longitudes', gx, sx[i0:i1 + 1])
    w.eq('latitudes', gy, y[j0:j1 + 1])
    w.shape_eq('matrix', got, (j1 - j0 + 1, i1 - i0 + 1))
    d, m = (w.data(sz), w.mask(sz)) if masked else (sz, None)
    same(w, 'nodes', got, d[j0:j1 + 1, i0:i1 + 1], m[j0:j1 + 1, i0:i1 + 1] if masked else None, masked)
    if model == 'OTIS':
        # staggered nodes are shifted in place
        gx -= 1
        gy -= 1
    w.unchanged('inputs', snap)


@contract('P19', 'crop projected', functions=['io.OTIS._crop'], tol=1e-12)
def crop_projected(w):
    """projected grids are never shifted"""
    np = w.np
    ny, nx = w.dim('ny', lo=2, hi=9), w.dim('nx', lo=2, hi=9)
    x, y = w.array('x', (nx,), lo=-3000, hi=3000, whole=False), w.array('y', (ny,), lo=-3000, hi=3000, whole=False)
    b = [w.real('b%d' % i, lo=-3000, hi=3000) for i in range(4)]
    if not w.symbolic:
        x[:], y[:] = np.sort(x), np.sort(y)
        b = sorted(b[:2]) + sorted(b[2:])
    z = w.array('z', (ny, nx))
    inx, iny = (x >= b[0]) & (x <= b[1]), (y >= b[2]) & (y <= b[3])
    w.assume(np.any(inx))
    w.assume(np.any(iny))
    jx, jy = np.flatnonzero(inx), np.flatnonzero(iny)
    i0, i1, j0, j1 = jx[0], jx[-1], jy[0], jy[-1]
    got, gx, gy = w.get(IO + 'OTIS._crop')(z, x, y, b, is_geographic=False)
    w.eq('x', gx, x[i0:i1 + 1])
    w.eq('y', gy, y[j0:j1 + 1])
    w.eq('nodes', got, z[j0:j1 + 1, i0:i1 + 1])


def neighbours(w, ny, nx, ring):
    """indices of the nodes to the west and to the south"""
    np = w.np
    i, j = np.arange(w.size(nx)), np.arange(w.size(ny))
    return w.ite(i > 0, i - 1, w.size(nx) - 1 if ring else 0), w.ite(j > 0, j - 1, 0)


def ring_args(world):
    return {} if world == 'default' else dict(is_global=world)


@contract('P19', 'staggered', functions=['io.OTIS._mask_nodes', 'io.OTIS._interpolate_mask', 'io.OTIS._interpolate_zeta'], params=product(world=['default', True, False]), tol=1e-12)
def staggered(w, world):
    """Arakawa C grid: u nodes between a node and its western, v nodes and its
    southern neighbour: wet when both are, with the mean of their depths"""
    ny, nx = w.dim('ny'), w.dim('nx')
    h, z = w.array('h', (ny, nx)), 1 * w.array('wet', (ny, nx), 'B')
    ring = world is not False
    west, south = neighbours(w, ny, nx, ring)
    snap = w.snapshot(h, z)
    kw = ring_args(world)
    one = lambda c: w.ite(c, 1, 0)
    wet = h > 0
    mu, mv = w.get(IO + 'OTIS._mask_nodes')(h, **kw)
    w.shape_eq('mask u', mu, (ny, nx))
    w.eq('mask u', mu, one(wet & wet[:, west]))
    w.eq('mask v', mv, one(wet & wet[south]))
    iu, iv = w.get(IO + 'OTIS._interpolate_mask')(z, **kw)
    w.eq('interpolated mask u', iu, z * z[:, west])
    w.eq('interpolated mask v', iv, z * z[south])
    hu, hv = w.get(IO + 'OTIS._interpolate_zeta')(h, **kw)
    w.shape_eq('depth u', hu, (ny, nx))
    w.eq('depth u', hu, w.ite(wet & wet[:, west], (h + h[:, west]) / 2, 0))
    w.eq('depth v', hv, w.ite(wet & wet[south], (h + h[south]) / 2, 0))
    w.unchanged('inputs', snap)
