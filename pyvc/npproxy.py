"""The `numpy` that the verified code sees.

Every function here is a trusted axiomatisation of the numpy function of the
same name on symbolic arrays (elementwise, broadcasting, masks, reductions).
A name that is not listed falls through to the real numpy when all of its
arguments are constants, and is refused (Unsupported) otherwise.
"""
import builtins
import types
import numpy as np
from fractions import Fraction
from . import terms as T
from . import arr as A
from .terms import Term, CTerm, Unsupported, lift
from .arr import SymArr, SymMA, Comp, asarr, ew1, ew2


def is_sym(x):
    if isinstance(x, (Term, CTerm, SymArr, Comp, A.SymSeq, A.MaskIdx, A.Opaque)) or type(x).__name__ == "SymName":
        return True
    if isinstance(x, (list, tuple)):
        return any(is_sym(v) for v in x)
    if isinstance(x, dict):
        return any(is_sym(v) for v in x.values())
    return False


def concretise(x):
    """constants back to real numpy; raises Unsupported on symbolic values"""
    if isinstance(x, SymMA):
        return np.ma.array(x.data.concrete(), mask=x.getmask().concrete())
    if isinstance(x, SymArr):
        return x.concrete()
    if isinstance(x, (Term, CTerm)):
        v = A._toval(x)
        return v
    if isinstance(x, list):
        return [concretise(v) for v in x]
    if isinstance(x, tuple):
        return tuple(concretise(v) for v in x)
    if isinstance(x, dict):
        return {k: concretise(v) for k, v in x.items()}
    if isinstance(x, (Comp, A.SymSeq, A.MaskIdx, A.Opaque)) or type(x).__name__ == "SymName":
        raise Unsupported('symbolic value passed to library code')
    return x


class _InstMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __eq__(cls, o):
        return cls is o or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class ndarray(metaclass=_InstMeta):
    _real = np.ndarray

    @staticmethod
    def _check(x):
        return isinstance(x, np.ndarray) or (isinstance(x, SymArr)) or isinstance(x, Comp)


class MaskedArray(metaclass=_InstMeta):
    _real = np.ma.MaskedArray

    @staticmethod
    def _check(x):
        return isinstance(x, (np.ma.MaskedArray, SymMA))


def cplx(f):
    """apply a real elementwise function"""
    def g(x):
        if isinstance(x, CTerm):
            raise Unsupported('complex argument')
        return f(x)
    return g


def _where_out(where, r, out):
    """the value of a function where it is asked for"""
    if where is True:
        return r
    if out is None:
        raise Unsupported('where= without out=')
    return A.where(asarr(where), r, out)


def _unary(f):
    def g(x, out=None, where=True, **kw):
        if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray):
            x = asarr(x)
        out = out[0] if isinstance(out, tuple) else out
        r = _where_out(where, ew1(f, x), out)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


REDUCE = {'add': 'sum', 'multiply': 'prod', 'logical_or': 'any', 'logical_and': 'all', 'maximum': 'max', 'minimum': 'min',
          'fmax': 'max', 'fmin': 'min'}


def _binary(f, name=None):
    def g(x, y, out=None, where=True, **kw):
        out = out[0] if isinstance(out, tuple) else out
        r = _where_out(where, ew2(f, x if not isinstance(x, (list, tuple)) else asarr(x),
                                  y if not isinstance(y, (list, tuple)) else asarr(y)), out)
        if out is not None:
            out[...] = r
            return out
        return r

    def outer(x, y):
        x, y = asarr(x), asarr(y)
        return g(x[(Ellipsis,) + (None,) * y.ndim], y)

    def reduce(x, axis=0, out=None, keepdims=False, **kw):
        if name not in REDUCE:
            raise Unsupported('numpy.%s.reduce' % name)
        if isinstance(x, (list, tuple)) and axis == 0 and not keepdims and x:
            r = x[0]
            for y in x[1:]:
                r = g(r, y)
            if name in ('logical_or', 'logical_and'):
                r = ew1(T.tobool, r)
        else:
            r = _red(REDUCE[name])(x, axis=axis, keepdims=keepdims) if name != 'multiply' else prod(x, axis)
        if out is not None:
            out[...] = r
            return out
        return r
    g.outer, g.reduce = outer, reduce
    return g


def _exp(x):
    if isinstance(x, CTerm):
        m = T.fn('exp', x.re) if x.re is not T.ZERO else T.ONE
        return CTerm(m * T.fn('cos', x.im), m * T.fn('sin', x.im))
    return T.fn('exp', x)


def _sqrt(x):
    if isinstance(x, CTerm):
        raise Unsupported('complex sqrt')
    return T.sqrt(x)


def _isnan(x):
    if isinstance(x, CTerm):
        return T.lor(_isnan(x.re), _isnan(x.im))
    return isnan_term(x)


_isnan_memo = {}


def isnan_term(x):
    """is-NaN of a term: NaN only enters through explicit NaN constants
    (through ite); every other operation is taken as real-valued"""
    r = _isnan_memo.get(x.id)
    if r is not None:
        return r
    if x is T.NAN:
        r = T.TRUE
    elif x.op == 'ite':
        r = T.ite(x.args[0], isnan_term(x.args[1]), isnan_term(x.args[2]))
    elif x.op in ('add', 'mul', 'div', 'ipow', 'toreal', 'floor', 'fn'):
        r = T.FALSE
        for a in x.args:
            if isinstance(a, Term):
                r = T.lor(r, isnan_term(a))
    elif x.op == 'app' and x.args[0] in NANABLE:
        r = T.app(('isnan', x.args[0]), *x.args[1:], kind='B')
    else:
        r = T.FALSE
    _isnan_memo[x.id] = r
    return r


def isinf_term(x):
    """infinity enters through explicit constants"""
    if isinstance(x, CTerm):
        return T.lor(isinf_term(x.re), isinf_term(x.im))
    x = lift(x)
    if x is T.INF:
        return T.TRUE
    if x.op == 'ite':
        return T.ite(x.args[0], isinf_term(x.args[1]), isinf_term(x.args[2]))
    if x.op in ('add', 'mul', 'toreal'):
        r = T.FALSE
        for a in x.args:
            r = T.lor(r, isinf_term(a))
        return r
    return T.FALSE


NANABLE = set()     # names of input arrays declared as possibly NaN


def _atan2(y, x):
    return T.fn('atan2', y, x)


def _angle(z, deg=False):
    z2 = asarr(z)
    def f(c):
        if isinstance(c, CTerm):
            return T.fn('atan2', c.im, c.re)
        return T.ite(T.lt(c, T.ZERO), T.PI, T.ZERO)
    r = ew1(f, z)
    if deg:
        r = r * (T.const(180) / T.PI)
    return r


def _hypot(x, y):
    return T.sqrt(x * x + y * y)


def tan_(x):
    return T.fn('tan', x)


UN = {
    'sin': cplx(lambda x: T.fn('sin', x)), 'cos': cplx(lambda x: T.fn('cos', x)),
    'tan': cplx(tan_), 'arcsin': cplx(lambda x: T.fn('asin', x)),
    'arccos': cplx(lambda x: T.fn('acos', x)), 'arctan': cplx(lambda x: T.fn('atan', x)),
    'sinh': cplx(lambda x: T.fn('sinh', x)), 'cosh': cplx(lambda x: T.fn('cosh', x)),
    'tanh': cplx(lambda x: T.fn('tanh', x)),
    'sqrt': _sqrt, 'exp': _exp, 'log': cplx(lambda x: T.fn('log', x)),
    'log10': cplx(lambda x: T.fn('log', x) / T.fn('log', T.const(10))),
    'abs': abs, 'absolute': abs, 'fabs': abs, 'negative': lambda x: -x, 'positive': lambda x: x,
    'square': lambda x: x * x, 'sign': cplx(T.sign), 'floor': cplx(lambda x: T.toreal(T.floor(x))),
    'ceil': cplx(lambda x: T.toreal(T.neg(T.floor(T.neg(x))))),
    'trunc': cplx(lambda x: T.toreal(T.trunc(x))), 'fix': cplx(lambda x: T.toreal(T.trunc(x))),
    'rint': cplx(lambda x: T.toreal(T.rint(x))),
    'isnan': _isnan, 'isfinite': lambda x: T.not_(T.lor(_isnan(x), isinf_term(x))), 'isinf': isinf_term,
    'radians': cplx(lambda x: x * T.PI / T.const(180)), 'deg2rad': cplx(lambda x: x * T.PI / T.const(180)),
    'degrees': cplx(lambda x: x * T.const(180) / T.PI), 'rad2deg': cplx(lambda x: x * T.const(180) / T.PI),
    'reciprocal': lambda x: T.ONE / x,
    'conjugate': lambda x: x.conjugate(), 'conj': lambda x: x.conjugate(),
    'logical_not': lambda x: T.not_(x), 'invert': lambda x: ~x, 'bitwise_not': lambda x: ~x,
    'expm1': cplx(lambda x: T.fn('exp', x) - T.ONE), 'log1p': cplx(lambda x: T.fn('log', x + T.ONE)),
    'cbrt': cplx(lambda x: T.sign(x) * T.power(abs(x), T.const(Fraction(1, 3)))),
}

BIN = {
    'add': A.T_add, 'subtract': A.T_sub, 'multiply': A.T_mul, 'divide': A.T_div, 'true_divide': A.T_div,
    'power': lambda x, y: x ** y, 'float_power': lambda x, y: x ** y,
    'mod': lambda x, y: x % y, 'remainder': lambda x, y: x % y,
    'floor_divide': lambda x, y: x // y,
    'fmod': lambda x, y: x - y * T.trunc(x / y),
    'arctan2': _atan2, 'hypot': _hypot,
    'copysign': lambda x, y: T.ite(T.lt(y, T.const(0)), T.neg(abs(x)), abs(x)),
    'maximum': T.maximum, 'minimum': T.minimum, 'fmax': T.maximum, 'fmin': T.minimum,
    'less': A.el_lt, 'less_equal': A.el_le, 'greater': A.el_gt, 'greater_equal': A.el_ge,
    'equal': A.el_eq, 'not_equal': lambda x, y: T.not_(A.el_eq(x, y)),
    'logical_and': T.land, 'logical_or': T.lor, 'logical_xor': T.lxor,
    'bitwise_and': T.land, 'bitwise_or': T.lor,
    'copysign': lambda x, y: T.ite(T.lt(y, T.ZERO), -abs(x), abs(x)),
}


def _kindarg(dtype, default):
    return default if dtype is None else A.kind_of_dtype(dtype)


def _lens(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(A.dimof(s) for s in shape)
    if isinstance(shape, SymArr) and shape.ndim == 1:
        return tuple(A.dimof(s) for s in shape.a)
    return (A.dimof(shape),)


def full_kind(k, v):
    return {'R': T.toreal, 'I': lambda x: x, 'B': T.tobool, 'C': lambda x: CTerm(T.toreal(x), T.ZERO), 'O': lambda x: x}[k](v)


def full(shape, fill_value, dtype=None, **kw):
    lens = _lens(shape)
    v = fill_value
    if isinstance(v, (SymArr, list, np.ndarray)):
        v = asarr(v)
        if dtype is not None:
            v = v.astype(dtype)
        r = A.broadcast_to(v, lens)
        return r
    v = lift(v)
    if dtype is not None:
        v = A.cast(v, A.kind_of_dtype(dtype))
    return SymArr(A._obj_full(A.phys(lens), v), A.dims_of(lens), A.kindof(v))


def zeros(shape, dtype=None, **kw):
    if dtype is not None and np.dtype(dtype if not isinstance(dtype, A.SymDtype) and not getattr(dtype, '_vc', None) else float).names:
        return np.zeros(shape, dtype)
    k = _kindarg(dtype, 'R')
    return full(shape, full_kind(k, T.IZERO)).wired(dtype)


def ones(shape, dtype=None, **kw):
    k = _kindarg(dtype, 'R')
    return full(shape, full_kind(k, T.IONE)).wired(dtype)


def empty(shape, dtype=None, **kw):
    """uninitialised: arbitrary values"""
    k = _kindarg(dtype, 'R')
    lens = _lens(shape)
    T._fresh[0] += 1
    n = 'uninit#%d' % T._fresh[0]
    a = A._obj(A.phys(lens))
    nd = len(lens)
    ixs = [A.IX[nd - 1 - ax] for ax in range(nd) if isinstance(lens[ax], A.Dim)]
    fo = a.ravel()
    for i in range(fo.size):
        kk = 'R' if k == 'C' else k
        e = T.app((n, i), *ixs, kind=kk if kk != 'O' else 'R')
        if k == 'C':
            e = CTerm(e, T.app((n, i, 'im'), *ixs))
        fo[i] = e if k != 'O' else None
    return SymArr(fo.reshape(A.phys(lens)), A.dims_of(lens), k).wired(dtype)


def _like(f):
    def g(x, dtype=None, shape=None, **kw):
        x = asarr(x)
        return f(x.shape if shape is None else shape, dtype=x.dtype if dtype is None else dtype)
    return g


def full_like(x, v, dtype=None, **kw):
    x = asarr(x)
    return full(x.shape, v, dtype=x.dtype if dtype is None else dtype)


def array(x, dtype=None, copy=True, ndmin=0, order=None, **kw):
    if isinstance(dtype, (list,)) or (dtype is not None and not isinstance(dtype, (A.SymDtype, type)) and isinstance(dtype, np.dtype) and dtype.names):
        return np.array(x, dtype)
    if isinstance(x, SymMA):
        x = x.data
    if isinstance(x, A.SymSeq):
        r = x.as_array()
    elif isinstance(x, str) or (dtype is not None and A.kind_of_dtype(dtype) == 'O') or _has_str(x):
        if is_sym(x):
            r = asarr(x)
        else:
            return np.array(x, dtype=dtype)
    else:
        r = asarr(x)
    r = SymArr(r.a.copy(), r.dims, r.kind)
    if dtype is not None:
        r = r.astype(dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _has_str(x):
    if isinstance(x, (list, tuple)):
        return any(_has_str(v) for v in x)
    if isinstance(x, np.ndarray):
        return x.dtype.kind in 'USMmV'
    return isinstance(x, (str, np.datetime64, np.timedelta64))


def asarray(x, dtype=None, **kw):
    if isinstance(x, SymArr) and not isinstance(x, SymMA):
        if dtype is None or A.kind_of_dtype(dtype) == x.kind:
            return x
    return array(x, dtype=dtype)


def atleast_1d(*xs):
    def f(x):
        if isinstance(x, np.ndarray) and x.dtype.kind in 'USMmV':
            return np.atleast_1d(x)
        if isinstance(x, A.SymSeq):
            return x
        if _has_str(x):
            return np.atleast_1d(x)
        if isinstance(x, Comp):
            return x
        x = asarr(x)
        return x if x.ndim else x[None]
    r = [f(x) for x in xs]
    return r[0] if len(r) == 1 else r


def atleast_2d(x):
    x = asarr(x)
    if x.ndim == 0:
        return x[None, None]
    return x[None, :] if x.ndim == 1 else x


def atleast_3d(x):
    x = asarr(x)
    if x.ndim == 0:
        return x[None, None, None]
    if x.ndim == 1:
        return x[None, :, None]
    return x[:, :, None] if x.ndim == 2 else x


class _CClass:
    def __getitem__(self, items):
        if not isinstance(items, tuple):
            items = (items,)
        if not is_sym(items):
            return asarr(np.c_[items])
        return column_stack(items)


def column_stack(items):
    if any(isinstance(x, A.Comp) for x in items):
        return A.CompCols(items)
    cols = []
    for x in items:
        x = asarr(x)
        if x.ndim == 0:
            x = x[None]
        cols.append(x[:, None] if x.ndim == 1 else x)
    return A.concatenate(cols, axis=-1)


class _RClass:
    def __getitem__(self, items):
        if not isinstance(items, tuple):
            items = (items,)
        return A.concatenate([atleast_1d(i) for i in items], axis=0)


def vstack(xs):
    return A.concatenate([atleast_2d(x) for x in xs], axis=0)


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return A.concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)


def dstack(xs):
    return A.concatenate([atleast_3d(x) for x in xs], axis=2)


def stack(xs, axis=0):
    xs = [asarr(x) for x in xs]
    lens = A.broadcast_lens(*[x.lens for x in xs])
    for x in xs:
        if x.lens != lens:
            raise ValueError('all input arrays must have the same shape')
    return A.stack(xs, axis)


def meshgrid(*xs, indexing='xy', **kw):
    xs = [asarr(x) for x in xs]
    xs = [x if x.ndim == 1 else x.flatten() for x in xs]
    n = len(xs)
    lens = [x.lens[0] for x in xs]
    order = list(range(n))
    if indexing == 'xy' and n >= 2:
        order[0], order[1] = 1, 0
    out_lens = tuple(lens[i] for i in order)
    res = []
    for i, x in enumerate(xs):
        pos = order.index(i)
        lay = [None] * n
        lay[pos] = 0
        res.append(A.broadcast_to(x.relayout(lay), out_lens))
    return res


def arange(*a, dtype=None, **kw):
    a = [x.term if isinstance(x, A.Dim) else x for x in a]
    if all(not isinstance(v, Term) or v.op == 'const' for v in a):
        vals = [v if not isinstance(v, Term) else v.args[0] for v in a]
        start, stop, step = (0, vals[0], 1) if len(vals) == 1 else (vals[0], vals[1], 1) if len(vals) == 2 else vals
        start, stop, step = Fraction(str(start)) if isinstance(start, float) else Fraction(start), \
            Fraction(str(stop)) if isinstance(stop, float) else Fraction(stop), \
            Fraction(str(step)) if isinstance(step, float) else Fraction(step)
        import math
        n = max(0, math.ceil((stop - start) / step))
        isint = all(isinstance(v, (int, np.integer)) or (isinstance(v, Term) and v.kind == 'I') for v in a)
        k = _kindarg(dtype, 'I' if isint else 'R')
        out = A._obj((n,))
        for i in builtins.range(n):
            out[i] = A.cast(T.const(start + i * step, 'I' if isint else 'R'), k)
        return SymArr(out, (None,), k)
    if len(a) == 1:
        d = A.dimof(a[0])
        out = A._obj((1,))
        out[0] = A.IX[0]
        r = SymArr(out, (d,), 'I')
        return r if dtype is None else r.astype(dtype)
    if len(a) == 2 and T.num(lift(a[0])) == 0:
        return arange(a[1], dtype=dtype)
    # start, stop, step: as many as there are whole steps
    start, stop, step = (lift(v) for v in (a if len(a) == 3 else (*a, 1)))
    n = _steps(T.div(T.sub(stop, start), step))
    out = A._obj((1,))
    out[0] = T.add(start, T.mul(step, A.IX[0]))
    r = SymArr(out, (n,), A.akind(out))
    return r if dtype is None else r.astype(dtype)


def _steps(q):
    """the axis whose length is a quotient (a whole number)"""
    from . import nf
    for d in A.Dim.table.values():
        if nf.is_zero(T.sub(d.term, q)):
            return d
    raise Unsupported('arange with symbolic bounds')


def linspace(a, b, num=50, endpoint=True, **kw):
    a, b = lift(a), lift(b)
    n = num if not isinstance(num, Term) else num
    if isinstance(n, Term) and n.op != 'const':
        d = A.dimof(n)
        out = A._obj((1,))
        den = n - 1 if endpoint else n
        out[0] = a + (b - a) * A.IX[0] / den
        return SymArr(out, (d,), 'R')
    n = int(n)
    den = max(1, n - 1 if endpoint else n)
    return stack_scalars([a + (b - a) * T.const(Fraction(i, den), 'R') for i in builtins.range(n)])


def stack_scalars(ts):
    out = A._obj((len(ts),))
    for i, t in enumerate(ts):
        out[i] = t
    return SymArr(out, (None,), A.akind(out))


def where(c, x=None, y=None):
    if x is None:
        return A.nonzero(c)
    if isinstance(c, A.SymMA):
        c = c.data
    return _unwrap(A.where(c, x, y))


def _unwrap(r):
    return r


def isclose(a, b, rtol=None, atol=None, equal_nan=False):
    rtol = lift(1e-5) if rtol is None else lift(rtol)
    atol = lift(1e-8) if atol is None else lift(atol)
    return ew2(lambda x, y: T.le(abs(x - y), atol + rtol * abs(y)), a, b)


def clip(x, lo=None, hi=None, **kw):
    if lo is not None:
        x = ew2(T.maximum, x, lo)
    if hi is not None:
        x = ew2(T.minimum, x, hi)
    return x


def _red(how):
    def g(x, axis=None, out=None, keepdims=False, dtype=None, **kw):
        if isinstance(x, np.ndarray) and x.dtype == bool and how in ('any', 'all'):
            return getattr(np, how)(x, axis=axis)
        if how in ('any', 'all') and isinstance(x, (bool, np.bool_)):
            return bool(x)
        if isinstance(x, A.MaskIdx) and how == 'any':
            # any index other than zero
            raise Unsupported('any of symbolic indices')
        if isinstance(x, types.GeneratorType):
            x = list(x)
        if isinstance(x, (Comp, SymMA)):
            return A.reduce_(x, how, axis, keepdims)
        if isinstance(x, A.SymSeq):
            x = x.as_array()
        return A.reduce_(asarr(x), how, axis, keepdims)
    return g


def mean(x, axis=None, **kw):
    x = asarr(x)
    return x.mean(axis)


def prod(x, axis=None, **kw):
    return A.reduce_(asarr(x), 'prod', axis, False)


def cumsum(x, axis=None, **kw):
    x = asarr(x)
    if x.ndim == 1 and x.dims[0] is None:
        out = []
        s = None
        for e in x.a:
            s = e if s is None else s + e
            out.append(s)
        return stack_scalars(out)
    raise Unsupported('cumsum')


def diff(x, n=1, axis=-1, **kw):
    x = asarr(x)
    if n == 1 and x.ndim == 1 and x.dims[0] is None:
        return x[1:] - x[:-1]
    raise Unsupported('diff')


def cross(a, b, axis=-1, **kw):
    a, b = asarr(a), asarr(b)
    sl = lambda x, i: x[tuple([slice(None)] * (x.ndim - 1) + [i])]
    a0, a1, a2 = (sl(a, i) for i in builtins.range(3))
    b0, b1, b2 = (sl(b, i) for i in builtins.range(3))
    c = [a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0]
    return A.stack([asarr(v) for v in c], axis=-1)


def outer(a, b):
    a, b = asarr(a).flatten(), asarr(b).flatten()
    return asarr(a[:, None]) * b[None, :]


def shape(x):
    if isinstance(x, (Comp,)):
        return (x.symlen(),)
    return asarr(x).shape


def ndim(x):
    if isinstance(x, Comp):
        return 1
    return asarr(x).ndim


def size(x, axis=None):
    if isinstance(x, (Comp, A.MaskIdx)):
        return x.size
    if isinstance(x, A.SymSeq):
        return x.symlen()
    x = asarr(x)
    return x.size if axis is None else x.shape[axis]


def round_(x, decimals=0, **kw):
    if decimals == 0:
        return ew1(lambda u: T.toreal(T.rint(u)) if u.kind == 'R' else u, x)
    p = T.const(10) ** T.const(decimals)
    return ew1(lambda u: T.toreal(T.rint(u * p)) / p, x)


def _argext(x, axis, how):
    x = asarr(x)
    if x.ndim == 1 and x.dims[0] is not None and axis in (None, 0, -1):
        return A.argmin(x, how)
    if x.is_const():
        return asarr(getattr(np, how)(x.concrete(), axis=axis))
    raise Unsupported(how)


def pad(x, pad_width, mode='constant', constant_values=0, **kw):
    x = asarr(x)
    if isinstance(pad_width, int):
        pad_width = ((pad_width, pad_width),) * x.ndim
    pw = np.broadcast_to(np.array(pad_width, dtype=int), (x.ndim, 2))
    if mode not in ('constant', 'wrap', 'edge'):
        raise Unsupported('pad mode')
    if isinstance(x, A.SymMA):
        raise Unsupported('pad of a masked array')
    c = A.cast(lift(constant_values), x.kind)
    for ax in builtins.range(x.ndim):
        m, n = int(pw[ax][0]), int(pw[ax][1])
        if not m and not n:
            continue
        if x.dims[ax] is None:
            w = [(0, 0)] * x.ndim
            w[ax] = (m, n)
            out = np.pad(x.a, w, mode=mode, **(dict(constant_values=c) if mode == 'constant' else {}))
            x = SymArr(A.map_obj(lift, out), x.dims, x.kind)
            continue
        if max(m, n) > 2:
            raise Unsupported('pad of a symbolic axis')
        p = x.ndim - 1 - ax
        d, k = x.dims[ax].term, A.IX[p]
        at = lambda i: A.rename(x.a, {k: i})
        mid = at(T.sub(k, T.const(m)))
        if mode == 'constant':
            lo = hi = np.broadcast_to(A.asarr(c).a, x.a.shape)
        elif mode == 'edge':
            lo, hi = at(T.IZERO), at(T.sub(d, T.IONE))
        else:
            lo, hi = at(T.add(T.sub(k, T.const(m)), d)), at(T.sub(T.sub(k, T.const(m)), d))
        a = mid
        if n:
            a = A.zipmap(lambda u, v: T.ite(T.lt(k, T.add(d, T.const(m))), u, v), a, hi)
        if m:
            a = A.zipmap(lambda u, v: T.ite(T.lt(k, T.const(m)), u, v), lo, a)
        dims = list(x.dims)
        dims[ax] = A.dimof(T.add(d, T.const(m + n)))
        x = SymArr(a, dims, x.kind)
    return x


def roll(x, shift, axis=None, **kw):
    x = asarr(x)
    ax = 0 if axis is None else axis % x.ndim
    if axis is None and x.ndim > 1:
        raise Unsupported('roll of flattened array')
    if x.dims[ax] is None:
        return SymArr(np.roll(x.a, int(shift), axis=ax), x.dims, x.kind)
    raise Unsupported('roll of a symbolic axis')


def tile(x, reps):
    x = asarr(x)
    if isinstance(reps, (int, Term)):
        reps = (reps,)
    while x.ndim < len(reps):
        x = x[None]
    for ax, r in zip(builtins.range(x.ndim - len(reps), x.ndim), reps):
        if isinstance(r, int) and r == 1:
            continue
        if x.lens[ax] == 1:
            x = A.repeat(x, r, axis=ax)
        elif isinstance(r, int) and x.dims[ax] is None:
            x = SymArr(np.concatenate([x.a] * r, axis=ax), x.dims, x.kind)
        else:
            raise Unsupported('tile')
    return x


def broadcast_arrays(*xs):
    xs = [asarr(x) for x in xs]
    lens = A.broadcast_lens(*[x.lens for x in xs])
    return [A.broadcast_to(x, lens) for x in xs]


def divmod_(x, y):
    return ew2(lambda u, v: u // v, x, y), ew2(lambda u, v: u % v, x, y)


def dot(a, b):
    r = A.dot(a, b)
    # numpy copies the mask of a masked operand when the shapes agree (by
    # position: __array_finalize__)
    ms = [x for x in (a, b) if isinstance(x, A.SymMA)]
    if len(ms) > 1:
        raise Unsupported('dot of two masked arrays')
    for x in ms:
        if x.lens == r.lens:
            return A.SymMA(r.a, r.dims, r.kind, A.getmaskarray(x).copy())
        raise Unsupported('dot of a masked array')
    return r


def squeeze(x, axis=None):
    if isinstance(x, Comp):
        return x
    return asarr(x).squeeze(axis)


def expand_dims(x, axis):
    x = asarr(x)
    lay = list(builtins.range(x.ndim))
    axs = sorted(a % (x.ndim + 1) for a in ((axis,) if isinstance(axis, int) else axis))
    for a in axs:
        lay.insert(a, None)
    return x.relayout(lay, writable=True)


def moveaxis(x, s, d):
    x = asarr(x)
    o = [i for i in builtins.range(x.ndim) if i != s % x.ndim]
    o.insert(d % x.ndim, s % x.ndim)
    return x.relayout(o)


def eye(n, m=None, dtype=None, **kw):
    e = np.eye(int(n))
    return asarr(e)


def isin(x, y, **kw):
    x, y = asarr(x), asarr(y)
    def f(u):
        r = T.FALSE
        for v in y.a.ravel():
            r = T.lor(r, A.el_eq(u, v))
        return r
    return x.map(f, 'B')


def copyto(dst, src, where=True, **kw):
    if where is True:
        dst[...] = src
    else:
        w = A.broadcast_to(asarr(where), dst.lens)
        dst[...] = A.where(w, src, dst)


def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported('norm')
    x = asarr(x)
    if axis is None and x.ndim > 1:
        raise Unsupported('matrix norm')
    return ew1(T.sqrt, A.reduce_(ew2(A.T_mul, x, x), 'sum', axis, keepdims))


def det(m):
    m = asarr(m)
    n = m.lens[-1]
    g = lambda i, j: m[..., i, j]
    if n == 2:
        return g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0)
    if n == 3:
        return (g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0))
                + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0)))
    raise Unsupported('det')


def inv(m):
    m = asarr(m)
    if any(d is not None for d in m.dims[-2:]):
        raise Unsupported('inverse of a matrix with symbolic axes')
    if m.ndim > 2:
        k = m.lens[-1]
        if k not in (1, 2, 3):
            raise Unsupported('inverse')
        # adjugate over determinant, for every leading index
        g = lambda i, j: m[..., i, j]
        if k == 1:
            rows = [[T.ONE / g(0, 0)]]
        elif k == 2:
            d = det(m)
            rows = [[g(1, 1) / d, -g(0, 1) / d], [-g(1, 0) / d, g(0, 0) / d]]
        else:
            d = det(m)

            def cof3(i, j):
                r = [q for q in (0, 1, 2) if q != i]
                c = [q for q in (0, 1, 2) if q != j]
                v = g(r[0], c[0]) * g(r[1], c[1]) - g(r[0], c[1]) * g(r[1], c[0])
                return v if (i + j) % 2 == 0 else -v
            rows = [[cof3(j, i) / d for j in (0, 1, 2)] for i in (0, 1, 2)]
        return stack([stack(r, axis=-1) for r in rows], axis=-2)
    if m.is_const() and m.lens[-1] > 3:
        return asarr(np.linalg.inv(m.concrete().astype(float)))
    n = m.lens[-1]
    if n == 1:
        return asarr([[T.ONE / m[0, 0]]])
    d = det(m)
    if n == 2:
        return asarr([[m[1, 1] / d, -m[0, 1] / d], [-m[1, 0] / d, m[0, 0] / d]])
    if n == 3:
        def cof(i, j):
            r = [k for k in (0, 1, 2) if k != i]
            c = [k for k in (0, 1, 2) if k != j]
            v = m[r[0], c[0]] * m[r[1], c[1]] - m[r[0], c[1]] * m[r[1], c[0]]
            return v if (i + j) % 2 == 0 else -v
        return asarr([[cof(j, i) / d for j in builtins.range(3)] for i in builtins.range(3)])
    raise Unsupported('inverse')


LSTSQ = []      # hook: contract-supplied model of lstsq/inv on abstract matrices


class _Linalg:
    norm = staticmethod(norm)
    det = staticmethod(det)
    inv = staticmethod(inv)
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        if getattr(f, '_vc_stub', False):
            return f

        def g(*a, **k):
            if is_sym(a) and LSTSQ and n in LSTSQ[-1]:
                return LSTSQ[-1][n](*a, **k)
            return asarr_out(f(*concretise(a), **concretise(k)))
        return g


def asarr_out(r):
    if isinstance(r, tuple):
        return tuple(asarr_out(x) for x in r)
    if isinstance(r, np.ndarray) and r.dtype.kind in 'fiubc':
        return asarr(r)
    if isinstance(r, (np.floating, np.integer, np.bool_)):
        return lift(r)
    return r


def _broadcast_to(x, shape, subok=False):
    shape = shape if isinstance(shape, tuple) else (shape,)
    x = asarr(x)
    if subok and isinstance(x, SymMA):
        d = A.broadcast_to(x.data, shape)
        return SymMA(d.a, d.dims, d.kind, A.nomask if x.mask is A.nomask else A.broadcast_to(x.mask, shape))
    return A.broadcast_to(x.data if isinstance(x, SymMA) else x, shape)


# ---------------------------------------------------------------- masked
class _Ma:
    MaskedArray = MaskedArray
    masked_array = MaskedArray
    nomask = A.nomask
    masked = np.ma.masked

    @staticmethod
    def default_fill_value(x):
        k = x.kind if isinstance(x, (SymArr, A.SymDtype)) else None
        if k in ('C', 'c') or x is complex:
            return 1e20 + 0j
        if k in ('R', 'f') or x is float:
            return 1e20
        return np.ma.default_fill_value(x)

    @staticmethod
    def isMA(x):
        return isinstance(x, (SymMA, np.ma.MaskedArray))
    isMaskedArray = isMA
    isarray = isMA

    @staticmethod
    def getmaskarray(x):
        return A.getmaskarray(x)

    @staticmethod
    def getmask(x):
        return x.mask if isinstance(x, SymMA) else A.nomask

    @staticmethod
    def getdata(x):
        return x.data if isinstance(x, SymMA) else asarr(x)

    @staticmethod
    def zeros(shape, dtype=None, fill_value=None, **kw):
        r = zeros(shape, dtype)
        return SymMA(r.a, r.dims, r.kind, A.nomask, fill_value)

    @staticmethod
    def ones(shape, dtype=None, fill_value=None, **kw):
        r = ones(shape, dtype)
        return SymMA(r.a, r.dims, r.kind, A.nomask, fill_value)

    @staticmethod
    def empty(shape, dtype=None, fill_value=None, **kw):
        r = empty(shape, dtype)
        return SymMA(r.a, r.dims, r.kind, A.nomask, fill_value)

    @staticmethod
    def zeros_like(x, dtype=None):
        r = _like(zeros)(x, dtype)
        return SymMA(r.a, r.dims, r.kind, x.mask.copy() if isinstance(x, SymMA) else A.nomask)

    ones_like = staticmethod(lambda x, dtype=None: _Ma._w(_like(ones)(x, dtype), x))
    empty_like = staticmethod(lambda x, dtype=None: _Ma._w(_like(empty)(x, dtype), x))

    @staticmethod
    def _w(r, x):
        return SymMA(r.a, r.dims, r.kind, x.mask.copy() if isinstance(x, SymMA) else A.nomask)

    @staticmethod
    def array(data, mask=A.nomask, dtype=None, fill_value=None, copy=False, **kw):
        if isinstance(data, SymMA):
            d, m = data.data, data.mask
            if mask is not A.nomask and mask is not np.ma.nomask:
                m = asarr(mask) if m is A.nomask else ew2(T.lor, m, mask)
            fill_value = data._fv if fill_value is None else fill_value
        elif isinstance(data, np.ma.MaskedArray):
            d = asarr(data)
            d, m = d.data, d.mask
        else:
            d, m = asarr(data), mask
        if copy:
            d = SymArr(d.a.copy(), d.dims, d.kind)
        if dtype is not None:
            d = d.astype(dtype)
        return SymMA(d.a, d.dims, d.kind, m, fill_value)

    @staticmethod
    def asarray(x, dtype=None):
        if isinstance(x, SymMA):
            return x if dtype is None else x.astype(dtype)
        return _Ma.array(x, dtype=dtype)
    asanyarray = asarray

    @staticmethod
    def atleast_2d(x):
        if x.ndim >= 2:
            return x
        return x.relayout([None] * (2 - x.ndim) + list(builtins.range(x.ndim)))

    @staticmethod
    def atleast_1d(x):
        return x if x.ndim >= 1 else x.relayout([None])

    @staticmethod
    def masked_where(c, x, copy=True):
        x = _Ma.asarray(x)
        return SymMA(x.data.copy().a, x.dims, x.kind, ew2(T.lor, x.getmask(), c), x._fv)

    @staticmethod
    def concatenate(xs, axis=0):
        xs = [_Ma.asarray(x) for x in xs]
        d = A.concatenate([x.data for x in xs], axis)
        if builtins.all(x.mask is A.nomask for x in xs):
            return SymMA(d.a, d.dims, d.kind, A.nomask)
        return SymMA(d.a, d.dims, d.kind, A.concatenate([A.getmaskarray(x) for x in xs], axis))

    @staticmethod
    def masked_invalid(x, copy=True):
        x = _Ma.asarray(x)
        return SymMA(x.data.copy().a, x.dims, x.kind, ew2(T.lor, x.getmask(), UNP('isnan')(x.data)), x._fv)

    @staticmethod
    def masked_equal(x, v, copy=True):
        x = _Ma.asarray(x)
        return SymMA(x.data.copy().a, x.dims, x.kind, ew2(T.lor, x.getmask(), PROXY.equal(x.data, v)), v)

    @staticmethod
    def where(c, x, y):
        d = where(c, _Ma.getdata(x), _Ma.getdata(y))
        m = where(c, A.getmaskarray(_Ma.asarray(x)), A.getmaskarray(_Ma.asarray(y)))
        if isinstance(c, SymMA):
            m = ew2(T.lor, m, c.getmask())
        return SymMA(d.a, d.dims, d.kind, m)

    @staticmethod
    def stack(xs, axis=0):
        xs = [_Ma.asarray(x) for x in xs]
        d, m = stack([x.data for x in xs], axis), stack([A.getmaskarray(x) for x in xs], axis)
        return SymMA(d.a, d.dims, d.kind, m)

    @staticmethod
    def copy(x):
        return x.copy()

    @staticmethod
    def filled(x, v=None):
        return x.filled(v) if isinstance(x, SymMA) else x

    @staticmethod
    def sum(x, axis=None):
        return A.reduce_(x, 'sum', axis, False)

    @staticmethod
    def mask_or(a, b, **kw):
        if a is A.nomask:
            return b
        if b is A.nomask:
            return a
        return ew2(T.lor, a, b)

    def __getattr__(self, n):
        if n in UN or n in BIN:
            return getattr(PROXY, n)
        f = getattr(np.ma, n)
        if not callable(f):
            return f

        def g(*a, **k):
            return f(*concretise(a), **concretise(k))
        return g


def UNP(n):
    return _unary(UN[n])


def _np_type(name, k):
    real = getattr(np, name)

    class _T(metaclass=_InstMeta):
        _real = real
        _vc = k
        _k = k

        def __new__(cls, x=0, *a):
            if is_sym(x) or isinstance(x, (int, float, complex)):
                if isinstance(x, SymArr):
                    return x.astype(real)
                return A.cast(lift(x), k)
            return real(x, *a)

        @staticmethod
        def _check(x):
            return isinstance(x, real) or (isinstance(x, Term) and x.kind == k)
    _T.__name__ = name
    _T.dtype = np.dtype(real)
    return _T


def _fromfile(*a, **k):
    from . import vfile
    return vfile.fromfile(*a, **k)


class Proxy:
    """stands for the numpy module"""

    def __init__(self):
        d = self.__dict__
        for n, f in UN.items():
            d[n] = _unary(f)
        for n, f in BIN.items():
            d[n] = _binary(f, n)
        for n in ('float64', 'float32', 'float16', 'longdouble', 'double', 'single'):
            d[n] = _np_type(n, 'R')
        for n in ('int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64', 'intp'):
            d[n] = _np_type(n, 'I')
        for n in ('complex64', 'complex128', 'clongdouble'):
            d[n] = _np_type(n, 'C')
        d['bool_'] = _np_type('bool_', 'B')
        d['bool'] = d['bool_']
        d['pi'] = T.PI
        d['e'] = T.fn('exp', T.ONE)
        d['nan'] = T.NAN
        d['NaN'] = T.NAN
        d['inf'] = T.INF
        d['newaxis'] = None
        d['ndarray'] = ndarray
        d['ma'] = _Ma()
        d['linalg'] = _Linalg()
        d['c_'] = _CClass()
        d['r_'] = _RClass()
        g = dict(zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=_like(zeros), ones_like=_like(ones),
                 empty_like=_like(empty), full_like=full_like, array=array, asarray=asarray,
                 asanyarray=lambda x, dtype=None: x if isinstance(x, SymArr) and dtype is None else array(x, dtype),
                 ascontiguousarray=asarray, asfarray=asarray,
                 copy=lambda x, **k: array(x) if not isinstance(x, SymMA) else array(x.data), atleast_1d=atleast_1d,
                 atleast_2d=atleast_2d, atleast_3d=atleast_3d, column_stack=column_stack, vstack=vstack,
                 hstack=hstack, dstack=dstack, stack=stack,
                 concatenate=lambda xs, axis=0: A.concatenate(list(xs), axis), append=lambda x, y, axis=None: A.concatenate([asarr(x).flatten(), asarr(y).flatten()] if axis is None else [x, y], axis or 0),
                 meshgrid=meshgrid, arange=arange, linspace=linspace, where=where, isclose=isclose,
                 allclose=lambda a, b, **k: A.reduce_(asarr(isclose(a, b, **k)), 'all', None, False),
                 array_equal=lambda a, b: A.reduce_(asarr(ew2(A.el_eq, a, b)), 'all', None, False),
                 clip=clip, any=_red('any'), all=_red('all'), sum=_red('sum'), min=_red('min'), max=_red('max'),
                 amin=_red('min'), amax=_red('max'), mean=mean, prod=prod, cumsum=cumsum, diff=diff, cross=cross,
                 outer=outer, shape=shape, ndim=ndim, size=size, round=round_, around=round_, pad=pad, roll=roll,
                 tile=tile, broadcast_to=_broadcast_to,
                 broadcast_arrays=broadcast_arrays, divmod=divmod_, dot=dot, inner=A.inner, matmul=A.matmul,
                 vdot=lambda a, b: A.dot(asarr(a).flatten(), asarr(b).flatten()),
                 einsum=lambda s, *o, **k: A.einsum(s, *o), squeeze=squeeze, expand_dims=expand_dims,
                 moveaxis=moveaxis, transpose=lambda x, axes=None: asarr(x).transpose(axes),
                 swapaxes=lambda x, i, j: asarr(x).swapaxes(i, j), ravel=lambda x, **k: asarr(x).flatten(),
                 reshape=lambda x, *s, **k: asarr(x).reshape(*s), repeat=A.repeat, nonzero=A.nonzero,
                 flatnonzero=lambda x: A.nonzero(asarr(x).flatten())[0],
                 argmin=lambda x, axis=None: _argext(x, axis, 'argmin'), argmax=lambda x, axis=None: _argext(x, axis, 'argmax'),
                 argwhere=None,
                 count_nonzero=lambda x, **k: A.reduce_(asarr(x).map(lambda e: T.b2i(T.tobool(e))), 'sum', None, False),
                 real=lambda x: asarr(x).real if not isinstance(x, (Term, CTerm, Comp)) else x.real,
                 imag=lambda x: asarr(x).imag if not isinstance(x, (Term, CTerm, Comp)) else x.imag,
                 angle=_angle, eye=eye, identity=eye, isin=isin, copyto=copyto, trace=None,
                 iscomplexobj=lambda x: asarr(x).kind == 'C' if not isinstance(x, Comp) else x.kind == 'C',
                 isrealobj=lambda x: asarr(x).kind != 'C',
                 isscalar=lambda x: isinstance(x, (Term, CTerm)) or np.isscalar(x),
                 flip=lambda x, axis=None: _flip(x, axis),
                 fliplr=lambda x: asarr(x)[:, ::-1], flipud=lambda x: asarr(x)[::-1],
                 polyval=_polyval, nan_to_num=None, may_share_memory=lambda a, b: False,
                 searchsorted=lambda a, v, side='left', sorter=None: A.searchsorted(a, v, side),
                 fromfile=_fromfile,
                 take=lambda x, i, axis=None: asarr(x)[tuple([slice(None)] * (axis or 0) + [i])])
        for n, f in g.items():
            if f is not None:
                d[n] = f

    def dtype(self, x=None, *a, **k):
        if isinstance(x, A.SymDtype):
            return x
        if x in (float, int, bool, complex) or getattr(x, '_vc', None):
            return A._DT[A.kind_of_dtype(x)]
        return np.dtype(x, *a, **k)

    def __getattr__(self, n):
        f = getattr(np, n)
        if isinstance(f, type):
            return f
        if not callable(f):
            return f

        def g(*a, **k):
            if is_sym(a) or is_sym(k):
                try:
                    a, k = concretise(a), concretise(k)
                except Unsupported:
                    raise Unsupported('numpy.%s of symbolic values' % n)
            return asarr_out(f(*a, **k))
        return g


def _flip(x, axis):
    x = asarr(x)
    ax = list(builtins.range(x.ndim)) if axis is None else [axis % x.ndim]
    return x[tuple(slice(None, None, -1) if i in ax else slice(None) for i in builtins.range(x.ndim))]


def _polyval(p, x):
    p = asarr(p)
    r = T.ZERO
    for c in p.a:
        r = r * x + c
    return r


def _select(conds, choices, default=0):
    r = default
    for c, x in reversed(list(zip(conds, choices))):
        r = where(c, x, r)
    return asarr(r)


def _tensordot(a, b, axes=2):
    a, b = asarr(a), asarr(b)
    if isinstance(axes, int):
        ia, ib = list(builtins.range(a.ndim - axes, a.ndim)), list(builtins.range(axes))
    else:
        ia, ib = [[i] if isinstance(i, int) else list(i) for i in axes]
        ia, ib = [i % a.ndim for i in ia], [i % b.ndim for i in ib]
    la = [chr(97 + i) for i in builtins.range(a.ndim)]
    lb = [chr(110 + i) for i in builtins.range(b.ndim)]
    for i, j in zip(ia, ib):
        lb[j] = la[i]
    o = [c for i, c in enumerate(la) if i not in ia] + [c for i, c in enumerate(lb) if i not in ib]
    return A.einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(o)), a, b)


def _put_masked(x, mask, v):
    """numpy.place and numpy.putmask of single values"""
    if asarr(v).ndim:
        raise Unsupported('putmask of several values')
    x[mask] = v


def _diagonal(x, offset=0, axis1=0, axis2=1):
    x = asarr(x)
    if offset or x.ndim != 2:
        raise Unsupported('diagonal')
    n = builtins.min(x.lens)
    if not isinstance(n, int):
        raise Unsupported('diagonal of symbolic size')
    return asarr([x[i, i] for i in builtins.range(n)])


def _diag(x, k=0):
    x = asarr(x)
    if x.ndim == 2:
        return _diagonal(x, k)
    if k or x.dims[0] is not None:
        raise Unsupported('diag')
    r = zeros((x.lens[0], x.lens[0]))
    r.kind = x.kind if x.kind in ('C', 'R') else 'R'
    for i in builtins.range(x.lens[0]):
        r[i, i] = x[i]
    return r


def _ix(*xs):
    n = len(xs)
    return tuple(asarr(x)[tuple(slice(None) if j == i else None for j in builtins.range(n))] for i, x in enumerate(xs))


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if posinf is not None or neginf is not None:
        raise Unsupported('nan_to_num of infinity')
    r = where(UNP('isnan')(x), nan, x)
    if not copy:
        x[...] = r
        return x
    return r


def _split(x, n, axis=0):
    x = asarr(x)
    m = x.lens[axis]
    if not isinstance(m, int):
        raise Unsupported('split of a symbolic size')
    if isinstance(n, int):
        if m % n:
            raise ValueError('array split does not result in an equal division')
        n = [m // n * i for i in builtins.range(1, n)]
    e = [0] + [int(i) for i in n] + [m]
    pre = (slice(None),) * axis
    return [x[pre + (slice(i, j),)] for i, j in zip(e[:-1], e[1:])]


def _average(x, axis=None, weights=None, **kw):
    if weights is None:
        return mean(x, axis)
    w = asarr(weights)
    x = asarr(x)
    if w.lens != x.lens:
        raise Unsupported('weights')
    return A.reduce_(ew2(A.T_mul, x, w), 'sum', axis, False) / A.reduce_(w, 'sum', axis, False)


def _modf(x):
    f = ew1(T.trunc, asarr(x) if isinstance(x, (list, tuple, np.ndarray)) else x)
    return ew2(A.T_sub, x, f), f


def _vectorize(f, **kw):
    def g(*xs):
        if kw or len(xs) > 2:
            raise Unsupported('vectorize')
        return ew1(f, asarr(xs[0])) if len(xs) == 1 else ew2(f, *[asarr(x) for x in xs])
    return g


PROXY = Proxy()
PROXY.__dict__.update(
    select=_select, tensordot=_tensordot, putmask=_put_masked, place=_put_masked, diag=_diag, diagonal=_diagonal,
    trace=lambda x: _red('sum')(_diagonal(x)), ix_=_ix, nan_to_num=_nan_to_num, split=_split, average=_average, modf=_modf,
    vsplit=lambda x, n: _split(x, n, 0), hsplit=lambda x, n: _split(x, n, asarr(x).ndim > 1 and 1 or 0),
    compress=lambda c, x, axis=None: asarr(x)[tuple([slice(None)] * (axis or 0) + [c])],
    extract=lambda c, x: asarr(x)[c], ptp=lambda x, axis=None: _red('max')(x, axis=axis) - _red('min')(x, axis=axis),
    concat=PROXY.concatenate, permute_dims=PROXY.transpose, iterable=lambda x: hasattr(x, '__iter__'),
    asin=PROXY.arcsin, acos=PROXY.arccos, atan=PROXY.arctan, atan2=PROXY.arctan2, pow=PROXY.power,
    argwhere=lambda x: PROXY.transpose(stack(list(A.nonzero(x)))) if asarr(x).ndim > 1 else A.nonzero(x)[0][:, None],
    heaviside=lambda x, h: where(PROXY.equal(x, 0), h, where(PROXY.less(x, 0), 0.0, 1.0)))


def _fix_kind():
    """dtype objects of the proxy are understood by kind_of_dtype"""
    orig = A.kind_of_dtype

    def kind_of_dtype(dt):
        k = getattr(dt, '_vc', None)
        if k:
            return k
        return orig(dt)
    A.kind_of_dtype = kind_of_dtype


_fix_kind()


def _methods():
    """methods of arrays that are functions of numpy"""
    def plain(f):
        def g(self, *a, **k):
            if isinstance(self, SymMA) and self.mask is not A.nomask:
                raise Unsupported('method of masked arrays')
            return f(self, *a, **k)
        return g
    SymArr.clip = lambda self, min=None, max=None, **k: clip(self, min, max, **k)
    for n in ('cumsum', 'prod', 'take', 'searchsorted', 'argmax', 'trace', 'diagonal', 'compress'):
        if not hasattr(SymArr, n):
            setattr(SymArr, n, plain(getattr(PROXY, n)))
    SymArr.compress = plain(lambda self, c, axis=None: PROXY.compress(c, self, axis))
    SymArr.__divmod__ = lambda self, o: divmod_(self, o)
    SymArr.__rdivmod__ = lambda self, o: divmod_(o, self)
    SymMA.ptp = lambda self, axis=None: self.max(axis) - self.min(axis)
    SymMA.get_fill_value = lambda self: self.fill_value
    SymMA.count = lambda self: A.reduce_(asarr(ew1(lambda e: T.b2i(T.not_(T.tobool(e))), A.getmaskarray(self))), 'sum', None, False)


_methods()
