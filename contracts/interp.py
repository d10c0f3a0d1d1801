"""Interpolation of model grids: interpolate"""
from pyvc.contract import contract, product

I = 'pyTMD.interpolate.'


def grid(w, kind, masked=True):
    nx, ny, n = w.dim('nx', lo=2, hi=7), w.dim('ny', lo=2, hi=7), w.dim('n', lo=2, hi=9)
    x, y = w.axis('x', nx, lo=-180, hi=360), w.axis('y', ny, lo=-90, hi=90)
    z = w.masked('z', (ny, nx), kind=kind) if masked else w.array('z', (ny, nx), kind=kind)
    return nx, ny, n, x, y, z


def points(w, n, x, y):
    """anywhere: within cells, on nodes, on edges, outside of the grid"""
    p, q = w.array('lon', (n,), lo=-200, hi=400), w.array('lat', (n,), lo=-100, hi=100)
    if not w.symbolic:
        r, np = w.rng, w.np
        for a, g in ((p, x), (q, y)):
            for i in range(len(a)):
                u = r.random()
                if u < 0.25:
                    a[i] = r.choice(list(g))
                elif u < 0.9:
                    a[i] = r.uniform(g[0], g[-1])
    return p, q


def cell(w, x, y, z, p, q):
    """corners (value, masked, opposite area, at the corner) of the cell"""
    np = w.np
    i, j = w.bracket('x', p), w.bracket('y', q)
    out = []
    d, m = w.data(z), w.mask(z)
    for a in (0, 1):
        for b in (0, 1):
            wx, wy = abs(x[i + 1 - a] - p), abs(y[j + 1 - b] - q)
            out.append((d[j + b, i + a], m[j + b, i + a], wx * wy, np.isclose(q, y[j + b]) & np.isclose(p, x[i + a])))
    return i, j, out


@contract('P18', 'bilinear', functions=['interpolate.bilinear'], params=product(kind=['R', 'C'], masked=[True, False]), tol=1e-9, trials=40, timeout=300)
def bilinear(w, kind, masked):
    """node values at nodes; within cells the mean of the valid corners weighted
    by the area opposite to them; masked outside and without valid corners"""
    nx, ny, n, x, y, z = grid(w, kind, masked)
    p, q = points(w, n, x, y)
    snap = w.snapshot(x, y, z, p, q)
    kw = dict(dtype=complex) if kind == 'C' else {}
    got = w.get(I + 'bilinear')(x, y, z, p, q, **kw)
    np = w.np
    inside = (p >= x.min()) & (p <= x.max()) & (q > y.min()) & (q < y.max())
    i, j, cs = cell(w, x, y, z, p, q)
    at = cs[0][3] | cs[1][3] | cs[2][3] | cs[3][3]
    num = den = 0
    none = True | inside
    for v, m, a, near in cs:
        num = num + w.ite(m, 0, a * v)
        den = den + w.ite(m, 0, a)
        none = none & (m | ~(a > 0))
    w.shape_eq('result', got, (n,))
    w.eq('mask outside', w.mask(got), True | inside, where=~inside)
    w.eq('mask within cells', w.mask(got), none, where=inside & ~at)
    w.eq('value within cells', w.data(got) * den, num, where=inside & ~at & ~none)
    # the first node close to the point
    done = False
    for v, m, a, near in (cs[0], cs[1], cs[2], cs[3]):
        alone = near & ~((cs[0][3] & (near is not cs[0][3])) | (cs[1][3] & (near is not cs[1][3])) | (cs[2][3] & (near is not cs[2][3])) | (cs[3][3] & (near is not cs[3][3])))
        w.eq('node', w.data(got), v, where=inside & alone & ~m)
        w.eq('mask of node', w.mask(got), m, where=inside & alone)
    w.unchanged('inputs', snap)


def surfaces(z):
    """the real surfaces that are interpolated"""
    return [z.real, z.imag] if z.dtype.kind == 'c' else [z]


def stub_scipy(w):
    """interpolants of scipy: arbitrary values; arguments are recorded"""
    made = []

    class Spline:
        def __init__(self, *args, **kwargs):
            self.args, self.kwargs, self.at = args, kwargs, None
            self.k = len(made)
            made.append(self)

        def ev(self, *at):
            self.at = at
            return w.array('s%d' % self.k, w.np.shape(at[0]))

    class Regular(Spline):
        def __call__(self, at, *rest):
            self.at = (at,)
            kind = w.np.asarray(self.args[1]).dtype.kind
            return w.array('s%d' % self.k, w.np.shape(at)[:1], kind='C' if kind == 'c' else 'R')
    w.stub('scipy.interpolate.RectBivariateSpline', Spline)
    w.stub('scipy.interpolate.RegularGridInterpolator', Regular)
    return made


def linear(w, x, y, f, p, q):
    """bilinear interpolant of f (y, x), with the border cells extended"""
    np = w.np
    i, j = w.bracket('x', p), w.bracket('y', q)
    u, v = (p - x[i]) / (x[i + 1] - x[i]), (q - y[j]) / (y[j + 1] - y[j])
    return (1 - u) * (1 - v) * f[j, i] + u * (1 - v) * f[j, i + 1] + (1 - u) * v * f[j + 1, i] + u * v * f[j + 1, i + 1]


def reduced(w, s, reducer):
    if reducer == 'floor':
        return w.np.floor(s) != 0
    return w.np.ceil(s) != 0


def settled(np, m, reducer):
    """reduction does not depend on rounding"""
    return np.all(abs(m - 1) > 1e-7) if reducer == 'floor' else np.all((m == 0) | (abs(m) > 1e-7))


@contract('P18', 'spline', functions=['interpolate.spline'], params=product(kind=['R', 'C'], masked=[True, False], order=['default', 'cubic'], reducer=['default', 'floor']), tol=1e-9, trials=20)
def spline(w, kind, masked, order, reducer):
    """data (real and imaginary part) and mask are splines of the grid at the
    points, the mask reduced to a boolean; the default is bilinear"""
    made = stub_scipy(w)
    nx, ny, n, x, y, z = grid(w, kind, masked)
    p, q = points(w, n, x, y)
    np = w.np
    if not w.symbolic:
        # splines are constant outside of the grid
        p, q = np.clip(p, x[0], x[-1]), np.clip(q, y[0], y[-1])
        if order == 'cubic':
            w.assume(nx > 3 and ny > 3)
    snap = w.snapshot(x, y, z, p, q)
    kw = dict(dtype=complex) if kind == 'C' else {}
    ks = dict(kx=3, ky=3) if order == 'cubic' else {}
    if reducer == 'floor':
        kw['reducer'] = np.floor
    got = w.get(I + 'spline')(x, y, z, p, q, **kw, **ks)
    w.shape_eq('result', got, (n,))
    fs = surfaces(w.data(z)) + [w.mask(z)]
    if w.symbolic:
        w.true('number of splines', len(made) == len(fs))
        w.true('degree', all(s.kwargs == (ks or dict(kx=1, ky=1)) for s in made))
        # identify the splines by the values they are given
        same = lambda a, b: a.lens == b.lens and all(u is v for u, v in zip(a.a.ravel(), b.a.ravel()))
        used = [next((s for s in made if same(s.args[2], 1 * f.T) or same(s.args[2], f.T)), made[k]) for k, f in enumerate(fs)]
        for s, f in zip(used, fs):
            w.eq('x', s.args[0], x)
            w.eq('y', s.args[1], y)
            w.eq('values', s.args[2], 1 * f.T)
            w.eq('points x', s.at[0], p)
            w.eq('points y', s.at[1], q)
        vals = [w.array('s%d' % s.k, (n,)) for s in used]
    elif order == 'cubic':
        import scipy.interpolate
        vals = [scipy.interpolate.RectBivariateSpline(x, y, f.T, kx=3, ky=3).ev(p, q) for f in fs]
    else:
        vals = [linear(w, x, y, 1 * f, p, q) for f in fs]
        w.assume(settled(np, vals[-1], reducer))
    w.eq('mask', w.mask(got), reduced(w, vals[-1], reducer))
    if kind == 'C':
        w.eq('real part', w.data(got).real, vals[0])
        w.eq('imaginary part', w.data(got).imag, vals[1])
    else:
        w.eq('value', w.data(got), vals[0])
    w.unchanged('inputs', snap)


@contract('P18', 'regulargrid', functions=['interpolate.regulargrid'], params=product(kind=['R', 'C'], masked=[True, False], method=['default', 'nearest'], reducer=['default', 'floor']), tol=1e-9, trials=20)
def regulargrid(w, kind, masked, method, reducer):
    """data and mask are interpolants of the grid at the points, the mask reduced
    to a boolean; points outside are masked; the default is bilinear"""
    made = stub_scipy(w)
    nx, ny, n, x, y, z = grid(w, kind, masked)
    p, q = points(w, n, x, y)
    np = w.np
    snap = w.snapshot(x, y, z, p, q)
    kw = dict(dtype=complex) if kind == 'C' else {}
    if reducer == 'floor':
        kw['reducer'] = np.floor
    if method != 'default':
        kw['method'] = method
    got = w.get(I + 'regulargrid')(x, y, z, p, q, **kw)
    w.shape_eq('result', got, (n,))
    inside = (p >= x[0]) & (p <= x[-1]) & (q >= y[0]) & (q <= y[-1])
    if w.symbolic:
        w.true('number of interpolants', len(made) == 2)
        if made[0].kwargs.get('fill_value') == 1:
            made.reverse()
        for s, f in zip(made, (w.data(z), w.mask(z))):
            w.eq('latitudes', s.args[0][0], y)
            w.eq('longitudes', s.args[0][1], x)
            w.eq('values', 1 * s.args[1], 1 * f)
            w.eq('points', s.at[0], np.stack([q, p], axis=1))
            w.true('outside', s.kwargs.get('bounds_error') is False)
            w.true('method', s.kwargs.get('method') == (method if method != 'default' else 'linear'))
        w.true('masked outside', made[1].kwargs.get('fill_value') == 1)
        v = w.array('s%d' % made[0].k, (n,), kind=kind)
        m = w.array('s%d' % made[1].k, (n,))
        w.eq('mask', w.mask(got), reduced(w, m, reducer))
        w.eq('value', w.data(got), v)
    else:
        m = 1.0 * w.mask(z)
        if method == 'default':
            v, m = linear(w, x, y, w.data(z), p, q), linear(w, x, y, m, p, q)
            w.assume(settled(np, m, reducer))
        else:
            i, j = (np.argmin(abs(a[:, None] - b[None, :]), axis=0) for a, b in ((x, p), (y, q)))
            for a, b in ((x, p), (y, q)):
                c = np.sort(abs(a[:, None] - b[None, :]), axis=0)
                w.assume(np.all(c[1] - c[0] > 1e-9))
            v, m = w.data(z)[j, i], m[j, i]
        w.eq('mask outside', w.mask(got), True | inside, where=~inside)
        w.eq('mask', w.mask(got), reduced(w, m, reducer), where=inside)
        w.eq('value', w.data(got), v, where=inside & ~w.mask(got))
    w.unchanged('inputs', snap)


@contract('P18', 'distance', functions=['interpolate._distance'], params=[dict(d=2), dict(d=3)], tol=1e-6)
def distance(w, d):
    """Euclidean distances between a point and points"""
    n = w.dim('n')
    a, b = w.array('a', (d,), lo=-100, hi=100), w.array('b', (n, d), lo=-100, hi=100)
    got = w.get(I + '_distance')(a, b)
    w.shape_eq('distances', got, (n,))
    w.eq('distances', got, w.np.sqrt(sum((a[i] - b[:, i]) ** 2 for i in range(d))))


@contract('P18', 'extrapolate', functions=['interpolate.extrapolate'], params=product(kind=['R', 'C'], geographic=['default', 'projected', 'EPSG'], cutoff=['default', 'given', 'far', 'none']), tol=1e-12, trials=30, bounded=True)
def extrapolate(w, kind, geographic, cutoff):
    """value of the nearest valid node within the cutoff; masked without one"""
    np, r = w.np, w.rng
    nx, ny, n = w.dim('nx', lo=2, hi=9), w.dim('ny', lo=2, hi=9), w.dim('n', lo=1, hi=9)
    if geographic == 'projected':
        x, y = w.axis('x', nx, lo=-3000, hi=3000), w.axis('y', ny, lo=-3000, hi=3000)
    else:
        x, y = w.axis('x', nx, lo=-180, hi=360), w.axis('y', ny, lo=-90, hi=90)
    z = w.masked('z', (ny, nx), kind=kind)
    z.mask = np.ma.getmaskarray(z) & (w.array('u', (ny, nx), lo=0, hi=1) < r.choice([0.5, 1, 2]))
    z.data[w.array('nan', (ny, nx), 'B') & (w.array('v', (ny, nx), lo=0, hi=1) < 0.3)] = np.nan
    if cutoff == 'none':
        z.mask = True
    z.fill_value = -99.5
    p, q = x[0] + (x[-1] - x[0]) * w.array('p', (n,), lo=-0.3, hi=1.3), y[0] + (y[-1] - y[0]) * w.array('q', (n,), lo=-0.3, hi=1.3)
    if geographic != 'projected':
        q = np.clip(q, -90, 90)
        if r.random() < 0.3:
            p = np.where(p > 180, p - 360, p)
    kw = dict(dtype=complex) if kind == 'C' else {}
    if geographic == 'projected':
        kw['is_geographic'] = False
    elif geographic == 'EPSG':
        kw.update(EPSG='4326')
    if geographic == 'projected':
        g = np.stack(np.meshgrid(x, y), axis=-1)
        s = np.stack([p, q], axis=-1)
    else:
        def xyz(lon, lat):
            a, f = 6378.137, 1 / 298.257223563
            e2 = 2 * f - f * f
            la, lo = np.radians(lat), np.radians(lon)
            N = a / np.sqrt(1 - e2 * np.sin(la) ** 2)
            return np.stack([N * np.cos(la) * np.cos(lo), N * np.cos(la) * np.sin(lo), N * (1 - e2) * np.sin(la)], axis=-1)
        g = xyz(*np.meshgrid(x, y))
        s = xyz(p, q)
    d = np.sqrt(((g[None] - s[:, None, None]) ** 2).sum(-1))
    valid = ~np.ma.getmaskarray(z) & np.isfinite(z.data)
    c = np.inf
    if cutoff in ('given', 'far'):
        c = float(np.median(d) * r.choice([0.02, 0.2, 0.6, 1])) if cutoff == 'given' else 1e-9
        near = np.where(valid[None], d, np.inf).min(axis=(1, 2))
        if cutoff == 'given' and r.random() < 0.6 and np.isfinite(near).any():
            # little more than the distance of the nearest node of some point
            c = float(r.choice(list(near[np.isfinite(near)])) * r.choice([1.01, 1.1, 1.5, 1.9]))
        kw['cutoff'] = c
    snap = w.snapshot(x, y, z.mask, p, q)
    got = w.get(I + 'extrapolate')(x, y, z, p, q, **kw)
    w.shape_eq('result', got, (n,))
    for k in range(n):
        dk = np.where(valid, d[k], np.inf).ravel()
        o = np.sort(dk)
        w.assume(not (np.isfinite(o[0]) and (o[1] - o[0] < 1e-6 or abs(o[0] - c) < 1e-6)))
        near = np.isfinite(o[0]) and o[0] < c
        w.eq('mask', w.mask(got)[k:k + 1], np.array([not near]))
        if near:
            w.eq('value', w.data(got)[k:k + 1], z.data.ravel()[[np.argmin(dk)]])
    w.unchanged('inputs', snap)


class Nearest:
    """positions (in the selection that a tree was made of) of the nearest nodes"""

    def __init__(self, mask, j, i, sel=None):
        self.mask, self.j, self.i, self.sel = mask, j, i, sel

    def __getitem__(self, k):
        if getattr(k, 'axis', None) != 0:
            raise NotImplementedError('index of nearest nodes')
        return Nearest(self.mask, self.j, self.i, k.mask)

    def gather(self, values):
        from pyvc import arr as A
        if not A.same_mask(values.mask, self.mask) or self.sel is None:
            raise A.Unsupported('values of other nodes')
        m = {A.IX[1]: self.j, A.IX[0]: self.i}
        return A.Comp(self.sel, A.SymArr(A.rename(values.full.a, m).reshape(-1), self.sel.dims, values.full.kind))


def stub_tree(w, n, nx, ny):
    """scipy.spatial.cKDTree: query gives the nearest of the nodes, where it is nearer
    than the bound (assumed)"""
    T = w.T
    from pyvc import arr as A, engine
    made = []

    class Tree:
        def __init__(self, nodes, *args, **kwargs):
            self.nodes = nodes
            made.append(self)

        def query(self, points, k=1, distance_upper_bound=None, **kwargs):
            if k != 1 or kwargs:
                raise A.Unsupported('query of a tree')
            ub = T.lift(T.INF if distance_upper_bound is None else distance_upper_bound)
            S = self.nodes.cols[0].mask
            cols = [c.full for c in self.nodes.cols]
            w.true('coordinates of points and nodes', points.lens == (n, len(cols)) and S.lens == (ny, nx))
            k0 = A.IX[0]
            found, J, I_ = (T.app(a, k0, kind=b) for a, b in (('found', 'B'), ('J', 'I'), ('I', 'I')))
            best = T.app('best', k0)
            near = lambda d2: T.TRUE if ub is T.INF else T.lt(d2, T.mul(ub, ub))
            d2 = lambda k, j, i: T_sum([T.power(T.sub(T.subst(points.a[0, c], {A.IX[1]: k}), T.subst(g.a[0, 0], {A.IX[1]: j, A.IX[0]: i})), T.const(2)) for c, g in enumerate(cols)])
            sel = lambda j, i: T.tobool(T.subst(S.a[0, 0], {A.IX[1]: j, A.IX[0]: i}))
            for kk in (A.IX[0], A.IX[2]):
                at = lambda t: T.subst(t, {k0: kk})
                f, j, i, b = at(found), at(J), at(I_), at(best)
                imp = lambda p, q: engine.assume(T.lor(T.not_(p), q))
                for q in (sel(j, i), T.le(T.IZERO, j), T.lt(j, ny.term), T.le(T.IZERO, i), T.lt(i, nx.term), T.eq(b, d2(kk, j, i)), near(b)):
                    imp(f, q)
                # every node
                jj, ii = A.IX[1], A.IX[0]
                if kk is A.IX[2]:
                    here = T.land(T.land(T.le(T.IZERO, jj), T.lt(jj, ny.term)), T.land(T.le(T.IZERO, ii), T.lt(ii, nx.term)))
                    here = T.land(here, sel(jj, ii))
                    imp(T.land(here, near(d2(kk, jj, ii))), f)
                    imp(T.land(here, f), T.le(b, d2(kk, jj, ii)))
            dd = A._obj((1,))
            dd[0] = T.ite(found, T.sqrt(best), T.INF)
            return A.SymArr(dd, (n,), 'R'), Nearest(S, J, I_)

    def T_sum(xs):
        r = xs[0]
        for x in xs[1:]:
            r = T.add(r, x)
        return r
    w.stub('scipy.spatial.cKDTree', Tree)
    return made


@contract('P18', 'extrapolation', functions=['interpolate.extrapolate'], params=product(kind=['R', 'C'], geographic=[True, False], cutoff=['given', 'default']), assumes=('scipy.spatial.cKDTree.query returns the nearest node below the bound on the distance', 'Cartesian coordinates by the contract of spatial.to_cartesian'), trials=0)
def extrapolation(w, kind, geographic, cutoff):
    """every point with a valid node within the cutoff has the value of the nearest
    valid node; all other points are masked.  (The nodes that are looked at include
    every valid node within the cutoff of any point.)"""
    np = w.np
    n, nx, ny = w.dim('n'), w.dim('nx'), w.dim('ny')
    for a, b in ((n, nx), (n, ny), (nx, ny)):
        w.differ(a, b)
    x, y = w.array('x', (nx,)), w.array('y', (ny,))
    p, q = w.array('p', (n,)), w.array('q', (n,))
    z = w.masked('z', (ny, nx), kind=kind)
    tree = stub_tree(w, n, nx, ny)
    if geographic:
        def cartesian(lon, lat, h=0.0, a_axis=6378137.0, flat=None):
            w.eq('semimajor axis', a_axis, w.const('6378.137'))
            return tuple(w.uf('geo' + c, lon, lat, opaque=True) for c in 'xyz')
        w.stub('pyTMD.spatial.to_cartesian', cartesian)
        g = [w.uf('geo' + c, x[None, :] + 0 * y[:, None], y[:, None] + 0 * x[None, :]) for c in 'xyz']
        s = [w.uf('geo' + c, p, q) for c in 'xyz']
    else:
        g = [x[None, :] + 0 * y[:, None], y[:, None] + 0 * x[None, :]]
        s = [p, q]
    kw = dict(dtype=complex) if kind == 'C' else {}
    if not geographic:
        kw['is_geographic'] = False
    if cutoff == 'given':
        c = kw['cutoff'] = w.real('c', lo=0, open=True)
    got = w.get(I + 'extrapolate')(x, y, z, p, q, **kw)
    w.shape_eq('result', got, (n,))
    m = w.mask(got)
    d2 = sum((a[:, None, None] - b[None, :, :]) ** 2 for a, b in zip(s, g))
    V = (~w.mask(z))[None, :, :] | (d2 < -1)
    close = (d2 < c * c) if cutoff == 'given' else V
    if cutoff == 'given':
        # a node within the cutoff is within it along each axis
        u = [w.real('u%d' % k) for k in range(len(s))]
        for v in u:
            w.true('lemma', (v < c) & (-c < v), where=sum(t * t for t in u) < c * c)
        for a, b in zip(s, g):
            e = a[:, None, None] - b[None, :, :]
            w.assume(((e < c) & (-c < e)) | ~close)
    w.true('points with a valid node within the cutoff', ~m[:, None, None] | (d2 < -1), where=V & close)
    if not tree:
        w.true('no value without nodes', m)
        return
    from pyvc import arr as A
    T = w.T
    k = A.IX[0]
    J, I_ = T.app('J', k, kind='I'), T.app('I', k, kind='I')

    def at(v):
        """value at the nearest node of each point"""
        v = np.asarray(v)
        return A.SymArr(A.rename(v.a, {A.IX[1]: J, A.IX[0]: I_}).reshape(-1), (n,), v.kind)
    best = sum((a - at(b)) ** 2 for a, b in zip(s, g))
    w.true('the node is valid', ~at(w.mask(z)), where=~m)
    if cutoff == 'given':
        w.true('the node is within the cutoff', best < c * c, where=~m)
    w.true('no other node is nearer', best[:, None, None] <= d2, where=V & ~m[:, None, None])
    w.eq('value', w.data(got), at(w.data(z)), where=~m)


@contract('P18', 'extrapolate nothing', functions=['interpolate.extrapolate'], bounded=True)
def extrapolate_nothing(w):
    """no points"""
    np = w.np
    w.true('no result', w.get(I + 'extrapolate')(np.arange(3.0), np.arange(3.0), np.ma.zeros((3, 3)), np.array([]), np.array([])) is None)
