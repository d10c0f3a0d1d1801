"""Harmonic analysis: solve.constants"""
from pyvc.contract import contract, product
from .synthesis import stub_args, phase, CORR

SOLVERS = {'lstsq': 'numpy.linalg.lstsq', 'gelsd': 'scipy.linalg.lstsq', 'gelsy': 'scipy.linalg.lstsq', 'gelss': 'scipy.linalg.lstsq',
           'bvls': 'scipy.optimize.lsq_linear'}
SETS = ['m2', 's2', 'k1', 'o1', 'n2', 'mf', 'm4', 'q1', 'mm']


class Result:
    """scipy.optimize.OptimizeResult"""

    def __init__(self, x):
        self.x = x


def stub_solver(w):
    """least squares solvers return arbitrary parameters; calls are recorded"""
    calls = []

    def mk(path):
        def f(*args, **kwargs):
            p = w.array('p', w.np.shape(args[0])[1:])
            calls.append((path, args, kwargs, p))
            return Result(p) if path.endswith('lsq_linear') else (p, None, None, None)
        return f
    for path in sorted(set(SOLVERS.values())):
        w.stub(path, mk(path))
    return calls


def series(w, m, dt):
    """more dates than parameters"""
    n = w.dim('n', lo=12, hi=40)
    w.assume(w.size(n) > 2 * w.size(m))
    t = w.array('t', (n,), lo=-5000, hi=15000)
    deltat = w.real('deltat', lo=-0.001, hi=0.001) if dt == 'scalar' else w.array('deltat', (n,), lo=-0.001, hi=0.001)
    return n, t, deltat


def check_solution(w, calls, amp, ph, ht, th, f, m, solver):
    np = w.np
    rad = ph * np.pi / 180
    w.shape_eq('amplitude', amp, (m,))
    w.shape_eq('phase', ph, (m,))
    w.le('amplitude is not negative', 0, amp)
    w.le('phase is not negative', 0, ph)
    w.le('phase is at most one turn', ph, 360)
    if w.symbolic:
        w.true('one solution', len(calls) == 1)
        path, args, kw, p = calls[0]
        w.true('solver', path == SOLVERS[solver])
        w.true('method', kw.get('lapack_driver', kw.get('method', 'lstsq')) == solver)
        M, h = args[:2]
        w.eq('heights', h, ht)
        k = 2 * np.arange(m) if isinstance(m, int) else 2 * np.arange(m.term)
        w.eq('mean', M[:, 0], 1 + 0 * ht)
        w.eq('in-phase', M[:, k + 1], f * np.cos(th))
        w.eq('quadrature', M[:, k + 2], -f * np.sin(th))
        w.eq('real part', amp * np.cos(rad), p[k + 1])
        w.eq('imaginary part', -amp * np.sin(rad), p[k + 2])
    else:
        # normal equations of the synthesis
        A, B = f * np.cos(th), -f * np.sin(th)
        fit = A @ (amp * np.cos(rad)) + B @ (-amp * np.sin(rad))
        M = np.column_stack([A, B, np.ones_like(fit)])
        M = M / np.sqrt((M ** 2).sum(0))
        w.assume(np.linalg.cond(M) < 100)
        r = ht - fit
        r = r - np.mean(r)
        w.eq('normal equations', M.T @ r, 0 * M[0])


@contract('P13', 'constants', functions=['solve.constants.constants'], params=product(corr=CORR, dt=['scalar', 'array'], solver=list(SOLVERS)), tol=1e-6, trials=4)
def constants(w, corr, dt, solver):
    """the solver is given the design matrix of the synthesis and the heights;
    amplitude and phase are the polar form of its parameters"""
    stub_args(w)
    calls = stub_solver(w)
    m = w.dim('m', lo=2, hi=4)
    n, t, deltat = series(w, m, dt)
    cons = w.names('cons', m, SETS, distinct=True)
    ht = w.array('ht', (n,))
    snap = w.snapshot(t, ht)
    amp, ph = w.get('pyTMD.solve.constants')(t, ht, cons, deltat=deltat, corrections=corr, solver=solver)
    th, f = phase(w, t, cons, deltat, corr)
    check_solution(w, calls, amp, ph, ht, th, f, m, solver)
    w.unchanged('inputs', snap)


@contract('P13', 'single', functions=['solve.constants.constants'], params=product(corr=CORR, form=['name', 'list'], solver=['lstsq', 'bvls']), tol=1e-6, trials=4)
def single(w, corr, form, solver):
    """one constituent, by name or in a list; bounds reach the bounded solver"""
    stub_args(w)
    calls = stub_solver(w)
    n, t, deltat = series(w, 1, 'scalar')
    ht = w.array('ht', (n,))
    kw = dict(bounds=(w.const('-1e30'), w.const('1e30')), max_iter=50) if solver == 'bvls' else {}
    amp, ph = w.get('pyTMD.solve.constants')(t, ht, 's2' if form == 'name' else ['s2'], deltat=deltat, corrections=corr, solver=solver, **kw)
    th, f = phase(w, t, ['s2'], deltat, corr)
    check_solution(w, calls, amp, ph, ht, th, f, 1, solver)
    if w.symbolic and kw:
        w.true('bounds', calls[0][2].get('bounds') == kw['bounds'] and calls[0][2].get('max_iter') == 50)


@contract('P13', 'synthesis', functions=['solve.constants.constants', 'predict.time_series'], params=product(corr=CORR), tol=1e-6, trials=4)
def synthesis(w, corr):
    """the solved model is the prediction: time_series of the constants is the
    fit less its mean; heights synthesised from constants are solved for them"""
    stub_args(w)
    calls = stub_solver(w)
    m = w.dim('m', lo=2, hi=4)
    n, t, deltat = series(w, m, 'scalar')
    cons = w.names('cons', m, SETS, distinct=True)
    np = w.np
    f = w.get('pyTMD.predict.time_series')
    A = w.array('amplitude', (m,), lo=0.01, hi=10)
    G = w.array('phase', (m,), lo=0, hi=359)
    mean = w.real('mean', lo=-100, hi=100)
    z = lambda amp, ph: np.ma.array((amp * np.cos(ph * np.pi / 180) - 1j * amp * np.sin(ph * np.pi / 180))[None, :])
    ht = f(t, z(A, G), cons, deltat=deltat, corrections=corr).data + mean
    amp, ph = w.get('pyTMD.solve.constants')(t, ht, cons, deltat=deltat, corrections=corr)
    back = f(t, z(amp, ph), cons, deltat=deltat, corrections=corr)
    if w.symbolic:
        M, h = calls[0][1][:2]
        p = calls[0][3]
        k = 2 * np.arange(m.term)
        w.eq('fit', back.data, w.sum(M[:, k + 1] * p[k + 1] + M[:, k + 2] * p[k + 2], 1))
        w.eq('heights', h, ht)
    else:
        th, nf = phase(w, t, cons, deltat, corr)
        M = np.column_stack([nf * np.cos(th), nf * np.sin(th), np.ones_like(th[:, 0])])
        w.assume(np.linalg.cond(M / np.sqrt((M ** 2).sum(0))) < 100)
        w.eq('constants', z(amp, ph).data, z(A, G).data)
        w.eq('fit', back.data + mean, ht)


@contract('P13', 'errors', functions=['solve.constants.constants'], params=[dict(what=x) for x in ('few', 'lengths')])
def errors(w, what):
    """too short series and heights of another length are errors"""
    stub_args(w)
    stub_solver(w)
    m, n = (w.dim('m', lo=3, hi=5), w.dim('n')) if what == 'few' else (w.dim('m', hi=3), w.dim('n', lo=7, hi=9))
    cons = w.names('cons', m, SETS, distinct=True)
    if what == 'few':
        w.assume(w.size(n) <= 2 * w.size(m))
        nh = n
    else:
        nh = w.dim('heights', lo=5, hi=9)
        w.differ(n, nh)
        w.assume(w.size(n) > 2 * w.size(m))
    t, ht = w.array('t', (n,), lo=0, hi=1000), w.array('ht', (nh,))
    w.raises('error', ValueError, lambda: w.get('pyTMD.solve.constants')(t, ht, cons))
