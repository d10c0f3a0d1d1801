"""Minor constituents inferred from major ones; long-period equilibrium tide"""
import random
from pyvc.contract import contract, product

P = 'pyTMD.predict.'
# Egbert & Erofeeva (2002), Ray (1999): short-period minors as combinations of majors
SHORT = [('2q1', dict(q1='0.263', o1='-0.0252')), ('sigma1', dict(q1='0.297', o1='-0.0264')), ('rho1', dict(q1='0.164', o1='0.0048')),
         ('m1b', dict(o1='0.0140', k1='0.0101')), ('m1', dict(o1='0.0389', k1='0.0282')), ('chi1', dict(o1='0.0064', k1='0.0060')),
         ('pi1', dict(o1='0.0030', k1='0.0171')), ('phi1', dict(o1='-0.0015', k1='0.0152')), ('theta1', dict(o1='-0.0065', k1='0.0155')),
         ('j1', dict(o1='-0.0389', k1='0.0836')), ('oo1', dict(o1='-0.0431', k1='0.0613')), ('2n2', dict(n2='0.264', m2='-0.0253')),
         ('mu2', dict(n2='0.298', m2='-0.0264')), ('nu2', dict(n2='0.165', m2='0.00487')), ('lambda2', dict(m2='0.0040', s2='0.0074')),
         ('l2', dict(m2='0.0131', s2='0.0326')), ('l2b', dict(m2='0.0033', s2='0.0082')), ('t2', dict(s2='0.0585')), ('eps2', {}), ('eta2', {})]
FES = dict(mu2=dict(k2='0.069439968323', n2='0.351535557706', m2='-0.046278307672'),
           nu2=dict(k2='-0.006104695053', n2='0.156878802427', m2='0.006755704028'),
           lambda2=dict(k2='0.016503557465', n2='-0.013307812292', m2='0.007753383202'),
           l2=dict(k2='0.077137765667', n2='-0.051653455134', m2='0.027869916824'),
           t2=dict(k2='0.180480173707', n2='-0.020101177502', m2='0.008331518844'),
           eps2={'2n2': '0.53285', 'n2': '-0.03304'}, eta2=dict(m2='-0.0034925', k2='0.0831707'))
SHORT_MAJOR = ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', '2n2']
# equilibrium amplitudes (Cartwright & Edden 1973; Ray & Erofeeva 2014)
BANDS = {
    'semi_diurnal': (dict(n2='0.121006', m2='0.631931', s2='0.294019'),
                     dict(eps2='0.004669', mu2='0.019316', nu2='0.022983', gamma2='0.001902', alpha2='0.002178', beta2='0.001921', delta2='0.000714',
                          lambda2='0.004662', l2='0.017862', t2='0.017180', r2='0.002463', k2='0.079924', eta2='0.004467', **{'2n2': '0.016011'})),
    'diurnal': (dict(q1='0.050184', o1='0.262163', k1='0.368731'),
                dict(sigma1='0.008023', rho1='0.009540', tau1='0.003430', beta1='0.001941', m1a='0.020604', m1b='0.007420', chi1='0.003925', pi1='0.007125',
                     p1='0.122008', psi1='0.002929', phi1='0.005247', theta1='0.003966', j1='0.020618', so1='0.003417', oo1='0.011293', ups1='0.002157', **{'2q1': '0.006638'})),
    'long_period': (dict(node='0.027929', mm='0.035184', mf='0.066607'),
                    dict(sa='0.004922', ssa='0.030988', sta='0.001809', msm='0.006728', msf='0.005837', mst='0.002422', mt='0.012753', msqm='0.002037', mq='0.001687')),
}
AINV = {'semi_diurnal': [['3.3133', '-4.2538', '1.9405'], ['-3.3133', '4.2538', '-0.9405'], ['1.5018', '-3.2579', '1.7561']],
        'diurnal': [['3.1214', '-3.8494', '1.728'], ['-3.1727', '3.9559', '-0.7832'], ['1.438', '-3.0297', '1.5917']]}
ALL = ['m2', 's2', 'n2', 'k2', 'k1', 'o1', 'p1', 'q1', '2n2', 'mm', 'mf', 'node']
LISTS = dict(standard=ALL, reversed=ALL[::-1], upper=[c.upper() for c in ALL], eight=ALL[:8], long=['mf', 'q1', 'm4', 'node', 'o1', 'k1', 'mm'],
             some=['mf', 'l2', '2q1', 's2', 'm2', 'mm', 'K2', 'ms4', 'n2', 'T2', 'o1', 'q1', 'p1', 'k1', 'sa', 'eta2', 'j1', 'node'],
             more=['q1', 'm1', 'mt', 'o1', 'k1', 'MM', 'node', 'mf', 'm2', 'nu2', 's2', 'eps2', 'n2', 'mu2', 'rho1', 'p1'],
             six=['s2', 'o1', 'm2', 'k1', 'n2', 'q1'], five=['s2', 'm2', 'k1', 'n2', 'q1'], two=['mf', 's2', 'm2', 'q1', 'mm', 'o1', 'm8'])
NAMES = sorted({n for n, _ in SHORT} | {n for b in BANDS.values() for n in b[1]})
MINOR = dict(all=None, first=['2q1', 'eps2', 'sa'], few=['l2', 'mu2', 't2', 'j1', 'm1', 'ssa', 'msf', 'p1', 'k2', 'm4'], none=['m4'], empty=[])


def stub(w):
    """callee contracts (P04-P06): arguments are functions of date, deltat
    and constituent alone, one row per date"""
    def arguments(MJD, constituents, deltat=0.0, corrections='OTIS', M1='perth5'):
        return cols(w, 'arguments/' + corrections, MJD, deltat, list(constituents))

    def minor_arguments(MJD, deltat=0.0, corrections='OTIS'):
        return cols(w, 'minor/' + corrections, MJD, deltat, list(range(20)))
    w.stub('pyTMD.arguments.arguments', arguments)
    w.stub('pyTMD.arguments.minor_arguments', minor_arguments)


def cols(w, key, t, dt, names):
    t = w.np.atleast_1d(t)
    dt = w.np.broadcast_to(w.np.asarray(dt), w.np.shape(t)) if w.np.ndim(dt) == 0 else dt
    return tuple(w.np.stack([w.uf('%s/%s/%s' % (key, x, c), t, dt) for c in names], axis=1) for x in ('u', 'f', 'G'))


def setting(w, form, m):
    """dates, deltat, constituents of the points: time series of one point,
    drifting points, many points at one date, a single value"""
    n = w.dim('n')
    if form in ('map', 'map1'):
        t = w.real('t', lo=-5000, hi=15000)
        if form == 'map1':
            t = w.np.array([t])
    elif form == 'single':
        t = w.real('t', lo=-5000, hi=15000)
    else:
        t = w.array('t', (n,), lo=-5000, hi=15000)
    d = w.array('deltat', (n,), lo=-0.001, hi=0.001) if form in ('drift', 'series') else w.real('deltat', lo=-0.001, hi=0.001)
    z = w.masked('hc', (1 if form in ('series', 'single') else n, m), kind='C')
    if form == 'single':
        n = 1
    return n, t, d, z


FORMS = ['series', 'drift', 'map', 'map1', 'single']


def major(w, hc, cons, name):
    """constants of one major constituent, zero when it is not available"""
    for j, c in enumerate(cons):
        if c.lower() == name:
            z = w.data(hc)[:, j]
            return z.real, z.imag, w.mask(hc)[:, j]
    x = w.data(hc)[:, 0].real
    return 0 * x, 0 * x, x != x


def lincomb(parts):
    re = im = mk = None
    for c, (a, b, m) in parts:
        re, im, mk = (c * a, c * b, m) if re is None else (re + c * a, im + c * b, mk | m)
    return re, im, mk


def selected(cons, minor, names):
    have = [c.lower() for c in cons]
    return [c for c in names if c not in have and (c in minor if minor else True)]


def wave(w, z, u, f, G):
    th = G * w.np.pi / 180 + u
    return f * (z[0] * w.np.cos(th) - z[1] * w.np.sin(th))


def arguments(w, t, d, names, corr):
    u, f, G = w.get('pyTMD.arguments.arguments')(t + w.const('48622'), names, deltat=d, corrections=corr)
    return {c: (u[:, i], f[:, i], G[:, i]) for i, c in enumerate(names)}


def short_period(w, hc, t, d, cons, minor, corr):
    if sum(c in [x.lower() for x in cons] for c in SHORT_MAJOR) < 6:
        return None
    out, used, mk = 0, False, None
    u, f, G = w.get('pyTMD.arguments.minor_arguments')(t + w.const('48622'), deltat=d, corrections=corr)
    for i, (c, tab) in enumerate(SHORT):
        if c not in selected(cons, minor, [n for n, _ in SHORT]):
            continue
        used = True
        if corr == 'FES':
            tab = FES.get(c, tab)
        if tab:
            z = lincomb([(w.const(k), major(w, hc, cons, p)) for p, k in tab.items()])
            out = out + wave(w, z, u[:, i], f[:, i], G[:, i])
            mk = z[2] if mk is None else mk | z[2]
    return (out, mk) if used else None


def band(w, which, hc, t, d, cons, minor, corr, method='linear'):
    amaj, amin = BANDS[which]
    maj = sorted(amaj, key='node mm mf q1 o1 k1 n2 m2 s2'.split().index)
    if not all(c in [x.lower() for x in cons] for c in maj):
        return None
    names = selected(cons, minor, list(amin))
    if not names:
        return None
    freq = w.get('pyTMD.arguments.frequency')
    love = w.get('pyTMD.arguments._love_numbers')
    om = dict(zip(maj + names, [freq([c], corrections=corr)[0] for c in maj + names]))

    def gamma(c):
        if which != 'diurnal':
            return 1
        h, k, l = love(om[c])
        return 1 + k - h
    A = arguments(w, t, d, names, corr)
    Z = [major(w, hc, cons, c) for c in maj]
    Y = [1 / (w.const(amaj[c]) * gamma(c)) for c in maj]
    out, mk = 0, None
    for c in names:
        if method == 'linear':
            i = 0 if om[c] < om[maj[1]] else 1
            x = (om[c] - om[maj[i]]) / (om[maj[i + 1]] - om[maj[i]])
            wt = [(i, 1 - x), (i + 1, x)]
        else:
            a = [[w.const(v) for v in r] for r in AINV[which]]
            g = 2 * om[c] * 86400
            wt = [(i, a[0][i] + a[1][i] * w.np.cos(g) + a[2][i] * w.np.sin(g)) for i in range(3)]
        s = w.const(amin[c]) * gamma(c)
        z = lincomb([(s * x * Y[i], Z[i]) for i, x in wt])
        out = out + wave(w, z, *A[c])
        mk = z[2] if mk is None else mk | z[2]
    return out, mk


def compare(w, got, parts, n):
    parts = [p for p in parts if p is not None and p[1] is not None]
    w.shape_eq('height', got, (n,))
    v, mk = 0, None
    for a, b in parts:
        v, mk = v + a, b if mk is None else mk | b
    zero = w.np.zeros(w.np.shape(got))
    mk = (zero > 0) if mk is None else w.np.broadcast_to(mk, w.np.shape(got))
    w.eq('height', w.data(got), zero + v, where=~w.mask(got))
    w.eq('mask', w.mask(got), mk)


def run(w, fun, spec, cons, form, minor, exc, need, **kw):
    stub(w)
    n, t, d, hc = setting(w, form, len(cons))
    snap = w.snapshot(hc)
    f = lambda: w.get(P + fun)(t, hc, list(cons), deltat=d, minor=minor, raise_exception=exc, **kw)
    if exc and not need:
        w.raises('not enough constituents', Exception, f)
        return
    got = f()
    compare(w, got, spec(hc, t, d), n)
    w.unchanged('inputs', snap)


def cases(lists, corrs, **kw):
    out = []
    for i, (l, c) in enumerate((l, c) for l in lists for c in corrs):
        for j, m in enumerate(MINOR):
            out.append(dict(cons=l, corr=c, minor=m, form=FORMS[(i + j) % 5], **kw))
    return out


CORR = ['OTIS', 'ATLAS', 'GOT', 'FES', 'perth3']


@contract('P02', 'short_period', functions=['predict._infer_short_period'], params=cases(['standard', 'reversed', 'upper', 'eight', 'some', 'more', 'six', 'five', 'two'], ['OTIS', 'FES', 'perth3']),
          trials=3, tol=1e-5, timeout=60)
def short_period_(w, cons, corr, minor, form):
    """diurnal and semi-diurnal minors by the tabulated relations with majors"""
    C = LISTS[cons]
    run(w, '_infer_short_period', lambda hc, t, d: [short_period(w, hc, t, d, C, MINOR[minor], corr)], C, form, MINOR[minor], False, True, corrections=corr)


def _band(which, lists):
    @contract('P02', which, functions=['predict._infer_' + which], trials=3, tol=1e-5, timeout=60,
              params=cases(lists, ['OTIS', 'GOT'], method='linear') + ([] if which == 'long_period' else cases(lists, ['GOT'], method='admittance')))
    def f(w, cons, corr, minor, form, method):
        """minors by interpolation of the admittance of the band"""
        C = LISTS[cons]
        kw = dict(method=method) if which != 'long_period' else {}
        run(w, '_infer_' + which, lambda hc, t, d: [band(w, which, hc, t, d, C, MINOR[minor], corr, method)], C, form, MINOR[minor], False, True, corrections=corr, **kw)
    return f


_band('semi_diurnal', ['standard', 'upper', 'eight', 'some', 'more', 'two'])
_band('diurnal', ['standard', 'upper', 'reversed', 'some', 'more', 'long', 'five'])
_band('long_period', ['standard', 'upper', 'some', 'more', 'long', 'two'])


@contract('P02', 'infer_minor', functions=['predict.infer_minor'], params=cases(['standard', 'upper', 'some', 'more', 'long', 'five'], CORR), trials=3, tol=1e-5, timeout=60)
def infer_minor(w, cons, corr, minor, form):
    """all bands: GOT by admittances, others by tabulated relations; long
    periods by admittances"""
    C, M = LISTS[cons], MINOR[minor]
    spec = lambda hc, t, d: [band(w, b, hc, t, d, C, M, corr) for b in ('semi_diurnal', 'diurnal', 'long_period')] if corr == 'GOT' else \
        [short_period(w, hc, t, d, C, M, corr), band(w, 'long_period', hc, t, d, C, M, corr)]
    run(w, 'infer_minor', spec, C, form, M, False, True, corrections=corr)


@contract('P02', 'not_enough', functions=['predict.infer_minor', 'predict._infer_short_period', 'predict._infer_semi_diurnal', 'predict._infer_diurnal', 'predict._infer_long_period'],
          params=[dict(fun=f, cons=c, corr=k) for f, c, k in (('infer_minor', 'five', 'OTIS'), ('infer_minor', 'eight', 'OTIS'), ('infer_minor', 'long', 'GOT'), ('infer_minor', 'eight', 'GOT'),
                  ('_infer_short_period', 'five', 'OTIS'), ('_infer_semi_diurnal', 'long', 'GOT'), ('_infer_diurnal', 'five', 'GOT'), ('_infer_long_period', 'eight', 'OTIS'))])
def not_enough(w, fun, cons, corr):
    """missing majors are an error when asked for"""
    run(w, fun, None, LISTS[cons], 'drift', None, True, False, corrections=corr)


@contract('P02', 'defaults', functions=['predict.infer_minor'], trials=3, tol=1e-5)
def defaults(w):
    """default kind OTIS, no time correction, no restriction of the minors"""
    stub(w)
    n, t, d, hc = setting(w, 'drift', 12)
    f = w.get(P + 'infer_minor')
    a, b = f(t, hc, ALL), f(t, hc, ALL, deltat=0.0, corrections='OTIS', minor=None, raise_exception=False)
    w.eq('height', w.data(a), w.data(b), where=~w.mask(b))
    w.eq('mask', w.mask(a), w.mask(b))


@contract('P02', 'lists', functions=['predict.infer_minor'], params=product(corr=CORR), trials=25, bounded=True, tol=1e-5)
def lists(w, corr):
    """random lists of majors and minors, cases and orders"""
    pool = sorted(set(ALL) | set(NAMES) | {'m4', 'ms4', 'm8'})
    k = w.integer('k', 0, 12)
    r = random.Random(int(w.integer('seed', 0, 10 ** 6)))
    C = ALL + r.sample([p for p in pool if p not in ALL], int(k))
    for i in range(r.choice((0, 0, 0, 1, 3))):
        C.pop(r.randrange(len(C)))
    r.shuffle(C)
    C = [c.upper() if r.random() < 0.3 else c for c in C]
    M = r.choice((None, r.sample(NAMES, r.randint(1, 8))))
    spec = lambda hc, t, d: [band(w, b, hc, t, d, C, M, corr) for b in ('semi_diurnal', 'diurnal', 'long_period')] if corr == 'GOT' else \
        [short_period(w, hc, t, d, C, M, corr), band(w, 'long_period', hc, t, d, C, M, corr)]
    run(w, 'infer_minor', spec, C, r.choice(FORMS), M, False, True, corrections=corr)


# ------------------------------------------------- long-period equilibrium tide
LINES = [  # Cartwright & Tayler (1971), Cartwright & Edden (1973): amplitude (cm), multiples of s, h, p, N' = -N, ps
    ('node', '2.7929', 0, 0, 0, 1, 0), ('sa', '-0.4922', 0, 1, 0, 0, -1), ('ssa', '-3.0988', 0, 2, 0, 0, 0), ('msm', '-0.6728', 1, -2, 1, 0, 0),
    ('065.445', '0.231', 1, 0, -1, -1, 0), ('mm', '-3.5184', 1, 0, -1, 0, 0), ('065.465', '0.228', 1, 0, -1, 1, 0), ('msf', '-0.5837', 2, -2, 0, 0, 0),
    ('075.355', '-0.288', 2, 0, -2, 0, 0), ('mf', '-6.6607', 2, 0, 0, 0, 0), ('mf+', '-2.763', 2, 0, 0, 1, 0), ('075.575', '-0.258', 2, 0, 0, 2, 0),
    ('mst', '-0.2422', 3, -2, 1, 0, 0), ('mt', '-1.2753', 3, 0, -1, 0, 0), ('085.465', '-0.528', 3, 0, -1, 1, 0)]
LPNAMES = [x[0] for x in LINES]


@contract('P03', 'equilibrium_tide', functions=['predict.equilibrium_tide'], tol=1e-9, trials=4,
          params=[dict(form=f, corr=c, cons=s) for i, f in enumerate(['pairs', 'grid', 'series', 'map', 'value'])
                  for j, c in enumerate(CORR + ['TMD3', 'netcdf', 'default']) for s in (['default', 'str', 'list'][(i + j) % 3],)] +
          [dict(form='grid', corr='GOT', cons=c) for c in LPNAMES])
def equilibrium_tide(w, form, corr, cons):
    """sum of the fifteen lines of degree two, order zero, with the body tide
    factor 1 + k2 - h2; one latitude per date, or all latitudes by all dates"""
    from .arguments import stub_longitudes, OTIS_LIKE
    stub_longitudes(w)
    n, m = w.dim('n'), w.dim('m')
    lim = dict(lo=-90, hi=90, special=(0.0, 90.0, -90.0))
    tim = dict(lo=-5000, hi=15000)
    if form == 'grid':
        w.differ(n, m)
    t = w.array('t', (n,), **tim) if form in ('pairs', 'grid', 'series') else w.real('t', **tim)
    lat = w.array('lat', (n if form == 'pairs' else m,), **lim) if form in ('pairs', 'grid', 'map') else w.real('lat', **lim)
    d = w.array('deltat', (n,), lo=-0.001, hi=0.001) if form in ('grid',) else w.real('deltat', lo=-0.001, hi=0.001)
    kw, lines = {}, LPNAMES
    if cons == 'str':
        kw, lines = dict(constituents='MF'), ['mf']
    elif cons == 'list':
        kw, lines = dict(constituents=['mt', 'Node', '075.575', 'k1', 'SA', 'mf+']), ['mt', 'node', '075.575', 'sa', 'mf+']
    elif cons != 'default':
        kw, lines = dict(constituents=[cons]), [cons]
    if corr != 'default':
        kw['corrections'] = corr
    snap = w.snapshot(*[x for x in (t, lat) if w.np.ndim(x)])
    got = w.get(P + 'equilibrium_tide')(t, lat, deltat=d, **kw)
    s, h, p, N, pp = w.get('pyTMD.astro.mean_longitudes')(t + w.const('48622') + d, ASTRO5=corr not in OTIS_LIKE + ('default',))
    Z = 0
    for c, a, i, j, k, l, o in LINES:
        if c in lines:
            Z = Z + w.const(a) / 100 * w.np.cos((i * s + j * h + k * p - l * N + o * pp) * w.np.pi / 180)
    P20 = (3 * w.np.sin(lat * w.np.pi / 180) ** 2 - 1) / 2
    P20 = P20 * w.np.sqrt(5 / (4 * w.np.pi)) * w.const('0.693')
    if form in ('pairs', 'value'):
        want = w.np.atleast_1d(P20 * Z)
        shape = (n,) if form == 'pairs' else (1,)
    else:
        want = w.np.atleast_1d(P20)[:, None] * w.np.atleast_1d(Z)[None, :]
        shape = dict(grid=(m, n), series=(1, n), map=(m, 1))[form]
    w.shape_eq('height', got, shape)
    w.eq('height', got, want)
    w.unchanged('inputs', snap)
