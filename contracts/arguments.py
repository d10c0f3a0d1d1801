"""Nodal corrections, constituent tables, astronomical arguments (arguments.py)"""
import json
import os
from pyvc.contract import contract, product
from . import nodal_tables as NT

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'tables', 'doodson.json')) as fid:
    DOODSON = json.load(fid)
OTIS_LIKE = ('OTIS', 'ATLAS', 'TMD3', 'netcdf')
KINDS = ['OTIS', 'FES', 'perth3', 'GOT']
EXTRA = [n for r in NT.ROWS for n in r[1] if n not in DOODSON] + [n for n in NT.PARENTS if n not in DOODSON]
NAMES = list(DOODSON) + sorted(set(EXTRA))
L2 = ['l2', 'sl4'] + [n for n, p in NT.PARENTS.items() if 'l2' in p]
CIRC = dict(lo=-720, hi=720, special=(0.0, 90.0, 180.0, 270.0, 360.0))


def chunks(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


# ------------------------------------------------------------- nodal tables
class Schureman:
    """Schureman (1958): inclination I of the lunar orbit, longitude xi in the
    orbit and right ascension nu of its node on the equator"""

    def __init__(self, w, n, p):
        np = w.np
        c = lambda s: w.const(s)
        N, P = n * np.pi / 180, p * np.pi / 180
        self.I = I = np.arccos(c('0.913694997') - c('0.035692561') * np.cos(N))
        a1, a2 = np.arctan(c('1.01883') * np.tan(N / 2)), np.arctan(c('0.64412') * np.tan(N / 2))
        self.xi, self.nu = xi, nu = N - a1 - a2, a1 - a2
        t2 = np.tan(I / 2) ** 2
        self.Ra = np.sqrt(1 - 12 * t2 * np.cos(2 * (P - xi)) + 36 * t2 ** 2)
        self.R = np.arctan(np.sin(2 * (P - xi)) / (1 / (6 * t2) - np.cos(2 * (P - xi))))
        s2 = np.sin(2 * I)
        self.nup = np.arctan(s2 * np.sin(nu) / (s2 * np.cos(nu) + c('0.3347')))
        q = np.sin(I) ** 2
        self.nus = np.arctan(q * np.sin(2 * nu) / (q * np.cos(2 * nu) + c('0.0727'))) / 2
        self.w = w

    def fu(self, key):
        w, np, I, xi, nu, c = self.w, self.w.np, self.I, self.xi, self.nu, self.w.const
        s, h = np.sin(I), I / 2
        return {
            'mm': lambda: ((w.const(2) / 3 - s ** 2) / c('0.5021'), 0 * xi),
            'mf': lambda: (s ** 2 / c('0.1578'), -2 * xi),
            'msf': lambda: (1 + 0 * xi, 2 * xi - 2 * nu),
            'o1': lambda: (s * np.cos(h) ** 2 / c('0.38'), 2 * xi - nu),
            'j1': lambda: (np.sin(2 * I) / c('0.7214'), -nu),
            'k1': lambda: (np.sqrt(c('0.8965') * np.sin(2 * I) ** 2 + c('0.6001') * np.sin(2 * I) * np.cos(nu) + c('0.1006')), -self.nup),
            'oo1': lambda: (s * np.sin(h) ** 2 / c('0.0164'), -2 * xi - nu),
            'm2': lambda: (np.cos(h) ** 4 / c('0.9154'), 2 * xi - 2 * nu),
            'l2': lambda: (self.Ra * np.cos(h) ** 4 / c('0.9154'), 2 * xi - 2 * nu - self.R),
            'k2': lambda: (np.sqrt(c('19.0444') * s ** 4 + c('2.7702') * s ** 2 * np.cos(2 * nu) + c('0.0981')), -2 * self.nus),
            'eta2': lambda: (s ** 2 / c('0.1565'), -2 * nu),
            'm3': lambda: (np.cos(h) ** 6 / c('0.8758'), 3 * xi - 3 * nu),
        }[key]()


class Nodal:
    """f and u (radians) of one constituent from the published tables"""

    def __init__(self, w, n, p, kind, M1='perth5'):
        self.w, self.n, self.p, self.kind, self.M1 = w, n, p, kind, M1
        self.memo = {}
        self.S = None

    def arg(self, b):
        return {'': 0 * self.n, 'n': self.n, '2n': 2 * self.n, '3n': 3 * self.n, 'p': self.p, '2p': 2 * self.p, '2p-n': 2 * self.p - self.n,
                'p-n': self.p - self.n, '2n-2p': 2 * self.n - 2 * self.p}[b] * self.w.np.pi / 180

    def series(self, terms, fun):
        t = 0 * self.n
        for c, b in terms:
            t = t + self.w.const(c) * (1 if b == '' else fun(self.arg(b)))
        return t

    def AB(self, A, B):
        np = self.w.np
        return self.series(A, np.sin), self.series(B, np.cos)

    def fu(self, name):
        if name not in self.memo:
            self.memo[name] = self._fu(name)
        return self.memo[name]

    def _fu(self, name):
        np = self.w.np
        r = NT.find(self.kind, name, self.M1)
        if r is None:
            return 1 + 0 * self.n, 0 * self.n
        typ, d = r
        if typ == 'R':
            A, B = self.AB(*d)
            return np.sqrt(A ** 2 + B ** 2), np.arctan2(A, B)
        if typ == 'D':
            return self.series(d[0], np.cos), self.series(d[1], np.sin) * np.pi / 180
        if typ == 'RD':
            A, B = self.AB(d[0], d[1])
            return np.sqrt(A ** 2 + B ** 2), self.series(d[2], np.sin) * np.pi / 180
        if typ == 'RR':
            A, B = self.AB(d[0], d[1])
            A2, B2 = self.AB(d[2], d[3])
            return np.sqrt(A ** 2 + B ** 2), np.arctan2(A2, B2)
        if typ == 'S':
            if self.S is None:
                self.S = Schureman(self.w, self.n, self.p)
            return self.S.fu(d)
        f, u = 1 + 0 * self.n, 0 * self.n
        for parent, (k, m) in d.items():
            fp, up = self.fu(parent)
            f, u = f * fp ** k, u + m * up
        return f, u


def check(w, label, f, u, F, U):
    np = w.np
    w.eq('f ' + label, f, F)
    w.eq('cos u ' + label, np.cos(u), np.cos(U))
    w.eq('sin u ' + label, np.sin(u), np.sin(U))


def nodal_params():
    out = []
    for k in KINDS:
        names = [n for n in NAMES if not (k == 'FES' and n in L2)]
        plain = [n for n in names if NT.find(k, n) is None]
        rest = [n for n in names if n not in set(plain)]
        out += [dict(corr=k, part='plain%d' % i) for i in range(len(chunks(plain, 60)))]
        out += [dict(corr=k, part='%d' % i) for i in range(len(chunks(rest, 12)))]
    return out


def part_names(k, part):
    names = [n for n in NAMES if not (k == 'FES' and n in L2)]
    plain = [n for n in names if NT.find(k, n) is None]
    rest = [n for n in names if n not in set(plain)]
    return chunks(plain, 60)[int(part[5:])] if part.startswith('plain') else chunks(rest, 12)[int(part)]


def np_args(w, kind='array'):
    if kind == 'scalar':
        return w.real('n', **CIRC), w.real('p', **CIRC)
    d = w.dim('t')
    return w.array('n', (d,), **CIRC), w.array('p', (d,), **CIRC)


@contract('P04', 'nodal', functions=['arguments.nodal'], params=nodal_params(), trials=2)
def nodal(w, corr, part):
    """every constituent has the nodal factor and phase of the published table
    of its correction kind; compound tides those of their parents"""
    n, p = np_args(w)
    names = part_names(corr, part)
    snap = w.snapshot(n, p)
    u, f = w.get('pyTMD.arguments.nodal')(n, p, names, corrections=corr)
    w.shape_eq('f', f, w.np.shape(n) + (len(names),))
    w.shape_eq('u', u, w.np.shape(n) + (len(names),))
    S = Nodal(w, n, p, corr)
    for i, c in enumerate(names):
        check(w, c, f[:, i], u[:, i], *S.fu(c))
    w.unchanged('inputs', snap)


@contract('P04', 'nodal_forms', functions=['arguments.nodal'], params=product(corr=['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'FES', 'GOT', 'perth3', 'none'],
          M1=['Doodson', 'Ray', 'perth5'], kind=['array', 'scalar', 'string']), trials=3)
def nodal_forms(w, corr, M1, kind):
    """M1 variants, aliases of OTIS, unknown kinds, scalar longitudes, one
    constituent as a string, repeated and unknown constituents"""
    n, p = np_args(w, 'scalar' if kind == 'scalar' else 'array')
    k = 'OTIS' if corr in OTIS_LIKE else corr
    names = ['m1', 'k1', 'xyz9', 'm1', 'm2', 'o1', 'm1'] if kind != 'string' else ['m1']
    u, f = w.get('pyTMD.arguments.nodal')(n, p, names if kind != 'string' else 'm1', corrections=corr, M1=M1)
    want = (1,) if kind == 'scalar' else w.np.shape(n)
    w.shape_eq('f', f, want + (len(names),))
    w.shape_eq('u', u, want + (len(names),))
    S = Nodal(w, n, p, k, M1)
    for i, c in enumerate(names):
        j = (0, i) if kind == 'scalar' else (slice(None), i)
        check(w, '%s(%d)' % (c, i), f[j], u[j], *S.fu(c))


@contract('P04', 'nodal_defaults', functions=['arguments.nodal'], trials=3)
def nodal_defaults(w):
    """default kind OTIS, default M1 perth5"""
    n, p = np_args(w)
    u, f = w.get('pyTMD.arguments.nodal')(n, p, ['m1', 'k1', 'mf', 'l2'])
    S = Nodal(w, n, p, 'OTIS', 'perth5')
    for i, c in enumerate(['m1', 'k1', 'mf', 'l2']):
        check(w, c, f[:, i], u[:, i], *S.fu(c))


@contract('P04', 'nodal_list', functions=['arguments.nodal'], params=product(corr=KINDS), trials=8, bounded=True)
def nodal_list(w, corr):
    """a list of any length and order: every column is that of the constituent
    alone (bounded: random lists)"""
    n, p = np_args(w)
    m = w.dim('m', 1, 30)
    names = w.names('c', m, NAMES)
    u, f = w.get('pyTMD.arguments.nodal')(n, p, names, corrections=corr)
    for i, c in enumerate(names):
        u1, f1 = w.get('pyTMD.arguments.nodal')(n, p, [c], corrections=corr)
        w.eq('u(%d) %s' % (i, c), u[:, i], u1[:, 0])
        w.eq('f(%d) %s' % (i, c), f[:, i], f1[:, 0])


@contract('P04', 'nodal_l2', functions=['arguments.nodal'], params=product(perigee=['zero', 'any']), trials=3)
def nodal_l2(w, perigee):
    """FES (Schureman): l2 and sl4, any node with the perigee at zero and any
    perigee with the node at zero"""
    n, p = np_args(w)
    if perigee == 'zero':
        p = 0 * p
    else:
        n = 0 * n
    u, f = w.get('pyTMD.arguments.nodal')(n, p, ['l2', 'sl4'], corrections='FES')
    S = Schureman(w, n, p)
    for i, c in enumerate(['l2', 'sl4']):
        check(w, c, f[:, i], u[:, i], *S.fu('l2'))


@contract('P04', 'nodal_l2_compounds', functions=['arguments.nodal'], trials=3)
def nodal_l2_compounds(w):
    """FES: compound tides of l2 in terms of their parents"""
    n, p = np_args(w)
    nodal = w.get('pyTMD.arguments.nodal')
    for c in L2[2:]:
        u, f = nodal(n, p, [c], corrections='FES')
        F, U = 1, 0
        for parent, (k, m) in NT.PARENTS[c].items():
            u1, f1 = nodal(n, p, [parent], corrections='FES')
            F, U = F * f1[:, 0] ** k, U + m * u1[:, 0]
        check(w, c, f[:, 0], u[:, 0], F, U)


MINOR = ['2q1', 'sigma1', 'rho1', 'm1b', 'm1a', 'chi1', 'pi1', 'phi1', 'theta1', 'j1', 'oo1', '2n2', 'mu2', 'nu2', 'lambda2', 'l2a', 'l2b', 't2', 'eps2', 'eta2']
MINOR_AB = {
    '2q1': ('0.189 n, -0.0058 2n', '1, 0.189 n, -0.0058 2n'),
    'm1b': ('0.185 n', '1, 0.185 n'), 'm1a': ('-0.201 n', '1, 0.201 n'), 'chi1': ('-0.221 n', '1, 0.221 n'),
    'j1': ('-0.198 n', '1, 0.198 n'), 'oo1': ('-0.64 n, -0.134 2n', '1, 0.64 n, 0.134 2n'),
    '2n2': ('-0.0373 n', '1, -0.0373 n'), 'l2b': ('-0.441 n', '1, 0.441 n')}
for a in ('sigma1', 'rho1'):
    MINOR_AB[a] = MINOR_AB['2q1']
for a in ('mu2', 'nu2', 'l2a'):
    MINOR_AB[a] = MINOR_AB['2n2']
MINOR_GOT = dict(eps2=MINOR_AB['2n2'], eta2=('-0.436 n', '1, 0.436 n'))
MINOR_FES = dict(zip('2q1 sigma1 rho1 m1b m1a chi1 j1 oo1 2n2 mu2 nu2 lambda2 l2a eps2 eta2'.split(),
                     'o1 o1 o1 o1 j1 j1 j1 oo1 m2 m2 m2 m2 l2 m2 eta2'.split()))


def stub_longitudes(w):
    """callee contract of astro.mean_longitudes: functions of the date alone"""
    def mean_longitudes(MJD, MEEUS=False, ASTRO5=False):
        return tuple(w.uf('ml_%s/%s' % (x, 'meeus' if MEEUS else 'astro5' if ASTRO5 else 'otis'), MJD) for x in ('s', 'h', 'p', 'n', 'pp'))
    w.stub('pyTMD.astro.mean_longitudes', mean_longitudes)


def dates(w, kind, dt):
    if kind == 'scalar':
        return w.real('MJD', lo=30000, hi=80000, special=(51544.5, 48622.0)), w.real('deltat', lo=-0.01, hi=0.01)
    d = w.dim('t')
    t = w.array('MJD', (d,), lo=30000, hi=80000, special=(51544.5, 48622.0))
    return t, (w.real('deltat', lo=-0.01, hi=0.01) if dt == 'scalar' else w.array('deltat', (d,), lo=-0.01, hi=0.01))


def astro_args(w, t, dt, corr):
    """tau, s, h, p, n, pp and 90 degrees"""
    s, h, p, n, pp = w.get('pyTMD.astro.mean_longitudes')(t + dt, ASTRO5=corr not in OTIS_LIKE)
    hour = 24 * (t - w.floor(t))
    a = [15 * hour - s + h, s, h, p, n, pp]
    return [w.np.atleast_1d(x)[0] for x in a] + [90] if w.np.ndim(t) == 0 else a + [90]


DATES = [dict(kind='scalar', dt='scalar'), dict(kind='array', dt='scalar'), dict(kind='array', dt='array')]
CORRS = ['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'FES', 'perth3']


def angle_eq(w, label, a, b, per=360, **kw):
    """equal up to multiples of a full turn"""
    k = 2 * w.np.pi / per
    w.eq('cos ' + label, w.np.cos(a * k), w.np.cos(b * k), **kw)
    w.eq('sin ' + label, w.np.sin(a * k), w.np.sin(b * k), **kw)


@contract('P04', 'minor_arguments', functions=['arguments.minor_arguments'], params=[dict(d, corr=c) for d in DATES for c in CORRS], trials=3)
def minor_arguments(w, kind, dt, corr):
    """f and u of the 20 minor constituents: tables of Doodson & Warburg, or
    Schureman's formulas for FES"""
    stub_longitudes(w)
    t, d = dates(w, kind, dt)
    u, f, G = w.get('pyTMD.arguments.minor_arguments')(t, deltat=d, corrections=corr)
    a = astro_args(w, t, d, corr)
    n, p = a[4], a[3]
    shape = w.np.shape(w.np.atleast_1d(t)) + (20,)
    w.shape_eq('f', f, shape)
    w.shape_eq('u', u, shape)
    N = Nodal(w, n, p, corr)
    S = Schureman(w, n, p)
    for i, c in enumerate(MINOR):
        j = (0, i) if kind == 'scalar' else (slice(None), i)
        if corr == 'FES' and c in MINOR_FES:
            F, U = S.fu(MINOR_FES[c])
        else:
            tab = MINOR_GOT.get(c) if corr == 'GOT' else None
            tab = tab or MINOR_AB.get(c, ('0', '1'))
            A, B = N.AB(NT.terms(tab[0]), NT.terms(tab[1]))
            F, U = w.np.sqrt(A ** 2 + B ** 2), w.np.arctan2(A, B)
        check(w, c, f[j], u[j], F, U)


@contract('P06', 'minor_phase', functions=['arguments.minor_arguments', 'arguments._minor_table', 'arguments.coefficients_table'],
          params=[dict(d, corr=c) for d in DATES for c in CORRS], trials=3)
def minor_phase(w, kind, dt, corr):
    """equilibrium arguments of the 20 minor constituents"""
    stub_longitudes(w)
    t, d = dates(w, kind, dt)
    u, f, G = w.get('pyTMD.arguments.minor_arguments')(t, deltat=d, corrections=corr)
    a = astro_args(w, t, d, corr)
    w.shape_eq('G', G, w.np.shape(w.np.atleast_1d(t)) + (20,))
    for i, c in enumerate(MINOR):
        j = (0, i) if kind == 'scalar' else (slice(None), i)
        angle_eq(w, 'G ' + c, G[j], sum(int(k) * x for k, x in zip(DOODSON[c], a)))


# ------------------------------------------------------- constituent tables
S1 = [1, 1, -1, 0, 0, 0, 1]


def golden(c, corr):
    return S1 if c == 's1' and corr in OTIS_LIKE else DOODSON[c]


@contract('P05', 'coefficients', functions=['arguments.coefficients_table'], params=product(corr=CORRS + ['default'], part=list(range(len(chunks(list(DOODSON), 100))))))
def coefficients(w, corr, part):
    """the published Doodson coefficients of every constituent"""
    names = chunks(list(DOODSON), 100)[part]
    kw = {} if corr == 'default' else dict(corrections=corr)
    f = w.get('pyTMD.arguments.coefficients_table')
    c = f(names, **kw)
    w.shape_eq('coef', c, (7, len(names)))
    for i, n in enumerate(names):
        g = w.np.array([float(x) for x in golden(n, 'OTIS' if corr == 'default' else corr)])
        w.eq(n, c[:, i], g)
        w.eq(n + ' (alone)', f(n, **kw)[:, 0], g)
    r = f(w.np.array(names[::-1]) if not w.symbolic else tuple(names[::-1]), **kw)
    w.eq('reversed', r, c[:, ::-1])


@contract('P05', 'coefficients_unknown', functions=['arguments.coefficients_table'], params=product(corr=CORRS))
def coefficients_unknown(w, corr):
    """unknown constituents are errors"""
    f = w.get('pyTMD.arguments.coefficients_table')
    for bad in (['xx'], ['m2', 'M2'], 'nope', ['m2', '']):
        w.raises('unknown %s' % (bad,), ValueError, lambda: f(bad, corrections=corr))


@contract('P05', 'coefficients_list', functions=['arguments.coefficients_table'], params=product(corr=CORRS), bounded=True)
def coefficients_list(w, corr):
    """lists of any length and order (bounded: random lists)"""
    m = w.dim('m', 1, 40)
    names = w.names('c', m, list(DOODSON))
    c = w.get('pyTMD.arguments.coefficients_table')(names, corrections=corr)
    w.eq('coef', c, w.np.array([golden(n, corr) for n in names], dtype=float).T)


@contract('P05', 'tables', functions=['arguments._arguments_table', 'arguments._minor_table'], params=product(corr=CORRS))
def tables(w, corr):
    """tables of the 60 major and 20 minor constituents"""
    major = ['sa', 'ssa', 'mm', 'msf', 'mf', 'mt', 'alpha1', '2q1', 'sigma1', 'q1', 'rho1', 'o1', 'tau1', 'm1', 'chi1', 'pi1', 'p1', 's1', 'k1',
             'psi1', 'phi1', 'theta1', 'j1', 'oo1', '2n2', 'mu2', 'n2', 'nu2', 'm2a', 'm2', 'm2b', 'lambda2', 'l2', 't2', 's2', 'r2', 'k2', 'eta2', 'mns2',
             '2sm2', 'm3', 'mk3', 's3', 'mn4', 'm4', 'ms4', 'mk4', 's4', 's5', 'm6', 's6', 's7', 's8', 'm8', 'mks2', 'msqm', 'mtm', 'n4', 'eps2', 'z0']
    T = lambda names: w.np.array([[float(golden(n, corr)[k]) for n in names] for k in range(7)])
    w.eq('major', w.get('pyTMD.arguments._arguments_table')(corrections=corr), T(major))
    w.eq('minor', w.get('pyTMD.arguments._minor_table')(corrections=corr), T(MINOR))


def doodson_value(c):
    """Doodson number as text or float, None if it cannot be written"""
    v = [int(c[0])] + [int(x) + 5 for x in c[1:6]]
    if any(x < 0 or x > 11 for x in v):
        return None
    s = ['X' if x == 10 else 'E' if x == 11 else str(x) for x in v]
    s = '%s%s%s.%s%s%s' % tuple(s)
    return s if max(v) > 9 else float(s)


def extended_value(c):
    if any(x < -8 or x > 16 for x in c):
        return None
    return ''.join('RSTUVWXYZABCDEFGHIJKLMNOP'[int(x) + 8] for x in c)


@contract('P05', 'doodson_number', functions=['arguments.doodson_number', 'arguments._to_doodson_number', 'arguments._to_extended_doodson',
          'arguments._from_doodson_number', 'arguments._from_extended_doodson'], params=product(corr=['OTIS', 'FES'], part=list(range(len(chunks(list(DOODSON), 100))))))
def doodson_number(w, corr, part):
    """numbers of all constituents in the three formalisms, alone and in a
    list, in either case, and the coefficients recovered from them"""
    A = 'pyTMD.arguments.'
    f = w.get(A + 'doodson_number')
    names = chunks(list(DOODSON), 100)[part]
    same = lambda a, b: a is None and b is None or a is not None and b is not None and a == b
    for form, val in (('Doodson', doodson_value), ('Extended', extended_value), ('cartwright', lambda c: c)):
        dic = f([n.upper() for n in names], formalism=form, corrections=corr, raise_error=False)
        w.true(form + ' keys', list(dic) == [n.upper() for n in names])
        for n in names:
            want = val(golden(n, corr))
            if want is None:
                w.raises('%s %s unsupported' % (form, n), ValueError, lambda: f(n, formalism=form, corrections=corr))
                w.true('%s %s none' % (form, n), f(n, formalism=form, corrections=corr, raise_error=False) is None and dic[n.upper()] is None)
                continue
            got = f(n, formalism=form, corrections=corr)
            if form == 'cartwright':
                w.true('%s %s' % (form, n), [float(x) for x in got] == [float(x) for x in want[:6]] and
                       [float(x) for x in dic[n.upper()]] == [float(x) for x in want[:6]])
                continue
            w.true('%s %s' % (form, n), bool(same(got, want)) and bool(same(dic[n.upper()], want)))
            back = w.get(A + ('_from_doodson_number' if form == 'Doodson' else '_from_extended_doodson'))(got)
            w.true('%s %s inverse' % (form, n), [int(x) for x in back] == [int(x) for x in golden(n, corr)[:len(back)]] and len(back) == (6 if form == 'Doodson' else 7))


@contract('P05', 'doodson_unknown', functions=['arguments.doodson_number'])
def doodson_unknown(w):
    """unknown constituents and formalisms"""
    f = w.get('pyTMD.arguments.doodson_number')
    for form in ('Doodson', 'Extended', 'Cartwright'):
        w.raises('unknown ' + form, ValueError, lambda: f('xx', formalism=form))
        w.raises('unknown in list ' + form, ValueError, lambda: f(['m2', 'xx'], formalism=form))
        w.true('none ' + form, f('xx', formalism=form, raise_error=False) is None)
        d = f(['m2', 'xx'], formalism=form, raise_error=False)
        w.true('none in list ' + form, d['xx'] is None and d['m2'] is not None)
    w.raises('formalism', AssertionError, lambda: f('m2', formalism='Darwin'))


@contract('P05', 'doodson_inverse', functions=['arguments._to_doodson_number', 'arguments._from_doodson_number', 'arguments._to_extended_doodson', 'arguments._from_extended_doodson'],
          bounded=True, trials=400)
def doodson_inverse(w):
    """coefficients survive the way to numbers and back (bounded: random
    coefficient vectors, including those of several digits 10 and 11)"""
    A = 'pyTMD.arguments.'
    c = [w.integer('tau', 0, 11, special=(0, 1, 2, 10, 11))] + [w.integer('c%d' % i, -5, 6, special=(-5, 0, 5, 6)) for i in range(5)]
    d = w.get(A + '_to_doodson_number')(c)
    w.true('number', d == doodson_value(c))
    w.true('inverse', [int(x) for x in w.get(A + '_from_doodson_number')(d)] == c)
    w.true('inverse of text', [int(x) for x in w.get(A + '_from_doodson_number')(str(d))] == c)
    e = [w.integer('e%d' % i, -10, 18, special=(-8, 16, -9, 17)) for i in range(7)]
    if extended_value(e) is None:
        w.raises('unsupported', ValueError, lambda: w.get(A + '_to_extended_doodson')(e))
    else:
        x = w.get(A + '_to_extended_doodson')(e)
        w.true('extended', x == extended_value(e))
        w.true('extended inverse', [int(v) for v in w.get(A + '_from_extended_doodson')(x)] == e)


PARAMS = {  # OTIS/TMD: species, alpha, omega, phase, amplitude
    'm2': (2, .693, 1.405189e-4, 1.731557546, .2441), 's2': (2, .693, 1.454441e-4, 0., .112743), 'k1': (1, .736, 7.292117e-5, .173003674, .141565),
    'o1': (1, .695, 6.759774e-5, 1.558553872, .100661), 'n2': (2, .693, 1.378797e-4, 6.050721243, .046397), 'p1': (1, .706, 7.252295e-5, 6.110181633, .046848),
    'k2': (2, .693, 1.458423e-4, 3.487600001, .030684), 'q1': (1, .695, 6.495854e-5, 5.877717569, .019273), '2n2': (2, .693, 1.352405e-4, 4.086699633, .006141),
    'mu2': (2, .693, 1.355937e-4, 3.463115091, .007408), 'nu2': (2, .693, 1.382329e-4, 5.427136701, .008811), 'l2': (2, .693, 1.431581e-4, .553986502, .006931),
    't2': (2, .693, 1.452450e-4, .050398470, .006608), 'j1': (1, .695, 7.556036e-5, 2.137025284, .007915), 'm1': (1, .695, 7.025945e-5, 2.436575, .007915),
    'oo1': (1, .695, 7.824458e-5, 1.92904613, .004338), 'rho1': (1, .695, 6.531174e-5, 5.254133027, .003661), 'mf': (0, .693, 5.3234e-6, 1.756042456, .042041),
    'mm': (0, .693, 2.6392e-6, 1.96402161, .022191), 'ssa': (0, .693, 3.982e-7, 3.487600001, .019567), 'm4': (4, .693, 2.810377e-4, 3.463115091, 0.),
    'ms4': (4, .693, 2.85963e-4, 1.731557546, 0.), 'mn4': (4, .693, 2.783984e-4, 1.499093481, 0.), 'm6': (6, .693, 4.215566e-4, 5.194672637, 0.),
    'm8': (8, .693, 5.620755e-4, 6.926230184, 0.), 'mk3': (3, .693, 2.134402e-4, 1.90456122, 0.), 's6': (6, .693, 4.363323e-4, 0., 0.),
    '2sm2': (2, .693, 1.503693e-4, 4.551627762, 0.), '2mk3': (3, .693, 2.081166e-4, 3.290111417, 0.), 'msf': (0, .693, 4.9252e-6, 4.551627762, .003681),
    'sa': (0, .693, 1.99097e-7, 6.232786837, .003104), 'mt': (0, .693, 7.962619e-6, 3.720064066, .008044), '2q1': (1, .693, 6.231934e-5, 3.91369596, .002565)}


@contract('P05', 'constituent_parameters', functions=['arguments._constituent_parameters'])
def constituent_parameters(w):
    """OTIS parameters of the 33 constituents, in either case; zeros or an
    error for others"""
    f = w.get('pyTMD.arguments._constituent_parameters')
    rel = lambda a, b: abs(float(a) - b) <= 1e-12 * abs(b)
    for c, (sp, al, om, ph, am) in PARAMS.items():
        for n in (c, c.upper()):
            for kw in ({}, dict(raise_error=True)):
                a, p, o, l, s = f(n, **kw)
                w.true('%s %s' % (n, kw), rel(a, am) and rel(p, ph) and rel(o, om) and rel(l, al) and int(s) == sp)
    for c in sorted(set(DOODSON) - set(PARAMS)) + ['xx', '']:
        w.true('zero %s' % c, [float(x) for x in f(c)] == [0.0] * 5)
        w.raises('unknown %s' % c, ValueError, lambda: f(c, raise_error=True))


# ----------------------------------------------------------- P06: arguments
def stub_tables(w):
    """callee contracts of coefficients_table (one column per constituent,
    depending on the constituent alone) and nodal (one row per date, one
    column per constituent, functions of node, perigee and constituent)"""
    def coefficients_table(constituents, corrections='OTIS', **kwargs):
        cols = w.indices(constituents)
        return w.uf('coef/' + corrections, w.np.arange(7)[:, None] + 0 * cols[None, :], 0 * w.np.arange(7)[:, None] + cols[None, :])

    def nodal(n, p, constituents, corrections='OTIS', M1='perth5', **kwargs):
        cols = w.indices(constituents)
        n, p = w.np.atleast_1d(n), w.np.atleast_1d(p)
        f = lambda x: w.uf('%s/%s/%s' % (x, corrections, M1), n[:, None], p[:, None], cols[None, :])
        return f('nodal.u'), f('nodal.f')
    w.stub('pyTMD.arguments.coefficients_table', coefficients_table)
    w.stub('pyTMD.arguments.nodal', nodal)


@contract('P06', 'arguments', functions=['arguments.arguments'], params=[dict(d, corr=c, M1=m) for d in DATES for c in CORRS for m in (['default'] if c not in ('OTIS', 'GOT') else ['default', 'Ray', 'Doodson'])],
          trials=4)
def arguments(w, kind, dt, corr, M1):
    """equilibrium argument and nodal corrections of every constituent at
    every date"""
    stub_longitudes(w)
    stub_tables(w)
    t, d = dates(w, kind, dt)
    m = w.dim('m', 1, 12)
    cons = w.names('c', m, NAMES_ALL)
    kw = {} if M1 == 'default' else dict(M1=M1)
    snap = w.snapshot(t) if kind == 'array' else []
    A = 'pyTMD.arguments.'
    u, f, G = w.get(A + 'arguments')(t, cons, deltat=d, corrections=corr, **kw)
    s, h, p, n, pp = [w.np.atleast_1d(x)[:, None] for x in w.get('pyTMD.astro.mean_longitudes')(t + d, ASTRO5=corr not in OTIS_LIKE)]
    t1 = w.np.atleast_1d(t)[:, None]
    tau = 360 * (t1 - w.floor(t1)) - s + h
    c = w.get(A + 'coefficients_table')(cons, corrections=corr)
    G1 = sum(a * c[i:i + 1, :] for i, a in enumerate([tau, s, h, p, n, pp])) + 90 * c[6:7, :]
    u1, f1 = w.get(A + 'nodal')(n[:, 0], p[:, 0], cons, corrections=corr, **kw)
    shape = w.np.shape(t1)[:1] + (m,)
    w.shape_eq('G', G, shape)
    w.shape_eq('u', u, shape)
    w.shape_eq('f', f, shape)
    angle_eq(w, 'G', G, G1)
    w.eq('u', u, u1)
    w.eq('f', f, f1)
    w.unchanged('inputs', snap)


NAMES_ALL = list(DOODSON)


@contract('P06', 'arguments_default', functions=['arguments.arguments'], trials=4)
def arguments_default(w):
    """defaults: OTIS, no time correction, M1 of perth5"""
    stub_longitudes(w)
    stub_tables(w)
    t, d = dates(w, 'array', 'array')
    m = w.dim('m', 1, 12)
    cons = w.names('c', m, NAMES_ALL)
    A = w.get('pyTMD.arguments.arguments')
    for a, b, n in zip(A(t, cons), A(t, cons, deltat=0.0, corrections='OTIS', M1='perth5'), ('u', 'f', 'G')):
        w.eq(n, a, b)


RATES = {  # degrees per day at J2000
    'astro5': lambda c: [c('481267.88123421'), c('481267.88123421') - c('445267.1114034'), c('4069.0137287'), c('-1934.136261'), c('1.7192')],
    'otis': lambda c: [c('13.17639648'), c('0.98564736'), c('0.11140353'), c('-0.05295377'), c('0')]}


@contract('P05', 'frequency', functions=['arguments.frequency', 'arguments.coefficients_table', 'astro.mean_longitudes'],
          params=product(corr=CORRS, part=list(range(len(chunks(list(DOODSON), 100))))))
def frequency(w, corr, part):
    """angular frequency: the Doodson coefficients times the rates of the
    mean longitudes at J2000"""
    names = chunks(list(DOODSON), 100)[part]
    om = w.get('pyTMD.arguments.frequency')(names, corrections=corr)
    w.shape_eq('omega', om, (len(names),))
    r = [float(x) for x in RATES['otis' if corr in OTIS_LIKE else 'astro5'](w.const)]
    if corr not in OTIS_LIKE:
        r = [x / 36525 for x in r]
    r = [360 - r[0] + r[1]] + r
    import math
    for i, n in enumerate(names):
        want = sum(k * x for k, x in zip(golden(n, corr), r)) * 2 * math.pi / 360 / 86400
        w.true(n, bool(abs(float(om[i]) - want) <= 2e-12))


@contract('P05', 'frequency_list', functions=['arguments.frequency'], params=product(corr=CORRS))
def frequency_list(w, corr):
    """a list of constituents of any length: the frequency of each depends on
    its own coefficients alone, and linearly"""
    stub_tables(w)
    m = w.dim('m', 1, 20)
    cons = w.names('c', m, NAMES_ALL)
    f = w.get('pyTMD.arguments.frequency')
    om = f(cons, corrections=corr)
    c = w.get('pyTMD.arguments.coefficients_table')(cons, corrections=corr)
    s, h, p, n, pp = w.get('pyTMD.astro.mean_longitudes')(w.np.array([51544.5, 51544.55]), ASTRO5=corr not in OTIS_LIKE)
    tau = w.np.array([180.0, 198.0]) - s + h
    want = sum((x[1] - x[0]) * c[i, :] for i, x in enumerate([tau, s, h, p, n, pp])) * w.np.pi / 180 / 4320
    w.shape_eq('omega', om, (m,))
    w.eq('omega', om, want, tol=1e-6, scale=1e-6)


@contract('P05', 'aliasing_period', functions=['arguments.aliasing_period'], params=product(corr=['OTIS', 'GOT']))
def aliasing_period(w, corr):
    """reciprocal of the aliased frequency"""
    stub_tables(w)

    def frequency(constituents, corrections='OTIS', **kwargs):
        return w.uf('omega/' + corrections, w.indices(constituents))

    def aliasing(f, fs):
        return w.uf('aliasing', f, fs + 0 * f)
    w.stub('pyTMD.arguments.frequency', frequency)
    w.stub('pyTMD.math.aliasing', aliasing)
    m = w.dim('m', 1, 20)
    cons = w.names('c', m, ['m2', 's2', 'k1', 'o1', 'n2', 'mf', 'ssa', 'm4'])
    fs = w.real('sampling', lo=100000, hi=1e7)
    per = w.get('pyTMD.arguments.aliasing_period')(cons, fs, corrections=corr)
    om = w.get('pyTMD.arguments.frequency')(cons, corrections=corr)
    w.eq('period', per, 1 / w.get('pyTMD.math.aliasing')(om / (2 * w.np.pi), 1 / fs), tol=1e-5)


LOVE = {'1066A': ('1.0021714', '.603', '-.00246', '.298', '-.00123', '.0842', '.0000781'),
        'PEM-C': ('1.0021771', '.602', '-.00246', '.298', '-.00124', '.0839', '.0000769'),
        'C2': ('1.0021844', '.602', '-.00245', '.298', '-.00123', '.0846', '.0000758'),
        'PREM': ('1.0023214', '.5994', '-.002532', '.2962', '-.001271', '.08378', '.00007932')}


@contract('P05', 'love_numbers', functions=['arguments._love_numbers'], params=product(model=list(LOVE) + ['default']), trials=40)
def love_numbers(w, model):
    """body tide Love numbers: constants of the long-period and semidiurnal
    bands, resonance at the free core nutation in the diurnal band"""
    c = w.const
    om = w.real('omega', lo=0, hi=0.0003, special=(1e-4, 2e-5, 7e-5, 7.29e-5))
    kw = {} if model == 'default' else dict(model=model)
    got = w.get('pyTMD.arguments._love_numbers')(om, **kw)
    fcn, h0, h1, k0, k1, l0, l1 = [c(x) for x in LOVE['PREM' if model == 'default' else model]]
    o1 = w.get('pyTMD.arguments.frequency')(['o1'])[0]
    r = (om - o1) / (fcn * c('7292115e-11') - om)
    for n, x, semi, long, a, b in zip('hkl', got, ('.609', '.302', '.0852'), ('.606', '.299', '.084'), (h0, k0, l0), (h1, k1, l1)):
        w.eq(n + '2', x, w.ite(om > c('1e-4'), c(semi), w.ite(om < c('2e-5'), c(long), a + b * r)), tol=1e-6)


@contract('P05', 'love_numbers_model', functions=['arguments._love_numbers'])
def love_numbers_model(w):
    """unknown Earth models are errors"""
    w.raises('model', ValueError, lambda: w.get('pyTMD.arguments._love_numbers')(7e-5, model='prem'))


@contract('P05', 'tables of the potential', functions=['arguments._parse_tide_potential_table'], params=product(table=['_d1921_table', '_ct1971_table_5', '_ce1973_table_1', 'written']), bounded=True, trials=1)
def potential_tables(w, table):
    """rows are those of the file in their order; the number of each row is that of its
    coefficients (X: 10, E: 11)"""
    import tempfile
    np = w.np
    names = ('tau', 's', 'h', 'p', 'n', 'pp', 'Hs1', 'Hs2', 'Hs3', 'DO', 'Hs0')
    letter = lambda k: {10: 'X', 11: 'E'}.get(k, str(k))
    with tempfile.TemporaryDirectory() as d:
        if table == 'written':
            r = w.rng
            rows = []
            for _ in range(r.randint(1, 30)):
                k = [r.randint(0, 3)] + [r.randint(-5, 5) for _ in range(5)]
                n = [k[0]] + [v + 5 for v in k[1:]]
                do = ''.join(letter(v) for v in n[:3]) + '.' + ''.join(letter(v) for v in n[3:])
                h = ['%.5f' % r.uniform(-1, 1) for _ in range(r.choice([4, 5]))]
                rows.append(' '.join(map(str, k)) + '  ' + ' '.join(h[:3]) + '  ' + do + ' ' + ' '.join(h[3:]))
            path = os.path.join(d, 'table.txt')
            with open(path, 'w') as fid:
                fid.write('\n'.join(rows) + '\n')
        else:
            path = w.get('pyTMD.arguments.' + table)
        got = w.get('pyTMD.arguments._parse_tide_potential_table')(path)
        with open(path) as fid:
            lines = fid.read().splitlines()
    w.true('rows', len(got) == len(lines))
    for g, line in zip(got, lines):
        v = line.split()
        for n, s in zip(names, v):
            w.true(n, str(g[n]) == s if n == 'DO' else abs(float(g[n]) - float(s)) < 1e-6)
        k = [int(g[n]) for n in names[:6]]
        k = [k[0]] + [x + 5 for x in k[1:]]
        w.true('Doodson number', str(g['DO']) == ''.join(map(letter, k[:3])) + '.' + ''.join(map(letter, k[3:])))
