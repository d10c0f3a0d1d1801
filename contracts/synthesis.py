"""Harmonic synthesis: predict.map, predict.drift, predict.time_series"""
from pyvc.contract import contract, product

OTIS_LIKE = ('OTIS', 'ATLAS', 'TMD3', 'netcdf')
TABLE = ['m2', 's2', 'k1', 'o1', 'n2', 'p1', 'k2', 'q1', '2n2', 'mu2', 'nu2', 'l2', 't2', 'j1', 'm1', 'oo1', 'rho1',
         'mf', 'mm', 'ssa', 'm4', 'ms4', 'mn4', 'm6', 'm8', 'mk3', 's6', '2sm2', '2mk3', 'msf', 'sa', 'mt', '2q1']


def stub_args(w):
    """callee contract of arguments.arguments: G, pf, pu are functions of
    (date, deltat, constituent) alone, one row per date, one column per
    constituent"""
    def arguments(MJD, constituents, **kwargs):
        dt = kwargs.get('deltat', 0.0)
        corr = kwargs.get('corrections', 'OTIS')
        MJD = w.np.atleast_1d(MJD)
        dt = w.np.broadcast_to(w.np.asarray(dt), MJD.shape) if w.np.ndim(dt) == 0 else dt
        cols = w.indices(constituents)
        f = lambda n: w.uf(n + '/' + corr, MJD[:, None], dt[:, None], cols[None, :])
        return f('pu'), f('pf'), f('G')
    w.stub('pyTMD.arguments.arguments', arguments)

    def params(c, **kwargs):
        return tuple(w.uf('par/%s' % n, c) for n in ('amplitude', 'phase', 'omega', 'alpha', 'species'))
    w.stub('pyTMD.arguments._constituent_parameters', params)


def phase(w, t, cons, dt, corr):
    """(theta, f) with one row per date, one column per constituent"""
    pu, pf, G = w.get('pyTMD.arguments.arguments')(w.np.atleast_1d(t) + w.const('48622'), cons, deltat=dt, corrections=corr)
    if corr in OTIS_LIKE:
        om, ph = w.columns(cons, lambda c: w.get('pyTMD.arguments._constituent_parameters')(c)[2]), \
            w.columns(cons, lambda c: w.get('pyTMD.arguments._constituent_parameters')(c)[1])
        th = w.np.atleast_1d(t)[:, None] * om[None, :] * w.const('86400') + ph[None, :] + pu
    else:
        th = G * w.np.pi / w.const('180') + pu
    return th, pf


CORR = ['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'FES', 'perth3']


@contract('P01', 'drift', functions=['predict.drift'], params=product(corr=CORR, dt=['scalar', 'array']), tol=1e-6)
def drift(w, corr, dt):
    """height(i) = sum_k f_ik (Re z_ik cos th_ik - Im z_ik sin th_ik); masked
    exactly where a constituent is masked; inputs unchanged"""
    stub_args(w)
    n, m = w.dim('n'), w.dim('m')
    t = w.array('t', (n,), lo=-5000, hi=15000)
    hc = w.masked('hc', (n, m), kind='C')
    cons = w.names('cons', m, TABLE)
    deltat = w.real('deltat', lo=-0.001, hi=0.001) if dt == 'scalar' else w.array('deltat', (n,), lo=-0.001, hi=0.001)
    snap = w.snapshot(hc, t)
    ht = w.get('pyTMD.predict.drift')(t, hc, cons, deltat=deltat, corrections=corr)
    th, f = phase(w, t, cons, deltat, corr)
    z = w.data(hc)
    want = w.sum(f * (z.real * w.np.cos(th) - z.imag * w.np.sin(th)), 1)
    w.shape_eq('height', ht, (n,))
    w.eq('height', w.data(ht), want, where=~w.mask(ht))
    w.eq('mask', w.mask(ht), w.any(w.mask(hc), 1))
    w.unchanged('inputs', snap)


@contract('P01', 'map', functions=['predict.map'], params=product(corr=CORR), tol=1e-6)
def map_(w, corr):
    """one date, many points"""
    stub_args(w)
    n, m = w.dim('n'), w.dim('m')
    t = w.real('t', lo=-5000, hi=15000)
    hc = w.masked('hc', (n, m), kind='C')
    cons = w.names('cons', m, TABLE)
    deltat = w.real('deltat', lo=-0.001, hi=0.001)
    snap = w.snapshot(hc)
    ht = w.get('pyTMD.predict.map')(t, hc, cons, deltat=deltat, corrections=corr)
    th, f = phase(w, t, cons, deltat, corr)
    z = w.data(hc)
    want = w.sum(f[0, :] * (z.real * w.np.cos(th[0, :]) - z.imag * w.np.sin(th[0, :])), 1)
    w.shape_eq('height', ht, (n,))
    w.eq('height', w.data(ht), want, where=~w.mask(ht))
    w.eq('mask', w.mask(ht), w.any(w.mask(hc), 1))
    w.unchanged('inputs', snap)


@contract('P01', 'time_series', functions=['predict.time_series'], params=product(corr=CORR, dt=['scalar', 'array']), tol=1e-6)
def time_series(w, corr, dt):
    """one point, many dates"""
    stub_args(w)
    n, m = w.dim('n'), w.dim('m')
    t = w.array('t', (n,), lo=-5000, hi=15000)
    hc = w.masked('hc', (1, m), kind='C')
    cons = w.names('cons', m, TABLE)
    deltat = w.real('deltat', lo=-0.001, hi=0.001) if dt == 'scalar' else w.array('deltat', (n,), lo=-0.001, hi=0.001)
    snap = w.snapshot(hc, t)
    ht = w.get('pyTMD.predict.time_series')(t, hc, cons, deltat=deltat, corrections=corr)
    th, f = phase(w, t, cons, deltat, corr)
    z = w.data(hc)
    want = w.sum(f * (z.real * w.np.cos(th) - z.imag * w.np.sin(th)), 1)
    w.shape_eq('height', ht, (n,))
    w.eq('height', w.data(ht), want, where=~w.mask(ht))
    w.eq('mask', w.mask(ht), w.np.broadcast_to(w.any(w.mask(hc), 1), w.np.shape(t)))
    w.unchanged('inputs', snap)
