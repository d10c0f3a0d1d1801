"""Runtime called by the instrumented code"""
import builtins
import sys
from fractions import Fraction
import numpy as np
from . import terms as T
from . import arr as A
from . import engine
from .terms import Term, CTerm, Unsupported, lift, lift_or_none
from .npproxy import PROXY, is_sym, concretise, asarr_out
from .arr import SymArr, SymSeq, SymMA, Comp, Dim

mod_numpy = PROXY
_lits = {}


def lit(s):
    r = _lits.get(s)
    if r is None:
        r = T.from_float(float(s)) if s in ('inf', 'nan') or 'inf' in s else T.Term('const', (Fraction(s),), 'R')
        _lits[s] = r
    return r


def clit(s):
    return CTerm(T.ZERO, T.Term('const', (Fraction(s),), 'R'))


def div(a, b):
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and not isinstance(a, bool):
        if int(b) == 0:
            raise ZeroDivisionError('division by zero')
        return T.Term('const', (Fraction(int(a), int(b)),), 'R')
    if isinstance(b, Term) and not isinstance(a, SymArr) and b.op == 'const' and b.args[0] == 0 and isinstance(a, (int, float)):
        raise ZeroDivisionError('float division by zero')
    return a / b


def pow(a, b):
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
        if b >= 0:
            return a ** b
        return T.power(T.const(a), T.const(b))
    return a ** b


def idiv(a, b):
    if isinstance(a, SymArr):
        a /= b
        return a
    return div(a, b)


def ipow(a, b):
    if isinstance(a, SymArr):
        a **= b
        return a
    return pow(a, b)


def contains(x, y):
    if isinstance(y, SymSeq) or hasattr(y, 'symiter'):
        return engine.seq_contains(x, y)
    if isinstance(y, SymArr):
        r = A.reduce_(A.asarr(y == x), 'any', None, False)
        return bool(r)
    if isinstance(x, (Term, A.Opaque)) and isinstance(y, (list, tuple, set, dict)):
        for v in y:
            if builtins.bool(x == v):
                return True
        return False
    if isinstance(x, engine.SymName):
        return x.isin(y)
    return x in y


# ----------------------------------------------------------------- iteration
class SymRange:
    def __init__(self, dim, start=0):
        self.dim = dim

    def symlen(self):
        return self.dim.term

    def elem(self, k):
        return k

    def __iter__(self):
        raise Unsupported('range of symbolic length')


class SymEnum:
    def __init__(self, seq, start=0):
        self.seq, self.dim, self.start = seq, seq.dim, start

    def elem(self, k):
        return (k + self.start if self.start else k, self.seq.elem(k))

    def __iter__(self):
        raise Unsupported('enumerate of symbolic length')


class SymZip:
    def __init__(self, seqs):
        self.seqs = seqs
        ds = {s.dim for s in seqs}
        if len(ds) != 1:
            raise Unsupported('zip of different symbolic lengths')
        self.dim = ds.pop()

    def elem(self, k):
        return tuple(s.elem(k) for s in self.seqs)

    def __iter__(self):
        raise Unsupported('zip of symbolic length')


class SymArrIter:
    def __init__(self, a):
        self.a, self.dim = a, a.dims[0]

    def elem(self, k):
        return self.a[k]

    def __iter__(self):
        raise Unsupported('array of symbolic length')


class SymSelected:
    """the indices of the true elements of a mask, in order"""

    def __init__(self, mask):
        self.mask, self.dim = mask, mask.dims[0]

    def elem(self, k):
        return k

    def guard(self, k):
        return T.subst(self.mask.a[0], {A.IX[0]: k})

    def __iter__(self):
        raise Unsupported('selection of symbolic length')


SYM_ITERS = (SymSelected, SymRange, SymEnum, SymZip, SymArrIter, SymSeq)


def as_symiter(x):
    if isinstance(x, SYM_ITERS) or hasattr(x, 'symiter'):
        return x
    if isinstance(x, SymArr) and x.ndim and x.dims[0] is not None:
        return SymArrIter(x)
    if isinstance(x, A.MaskIdx) and x.mask.ndim == 1 and x.mask.dims[0] is not None:
        return SymSelected(x.mask)
    return None


def iter(x):
    s = as_symiter(x)
    return s if s is not None else x


def symloop(x):
    return isinstance(x, SYM_ITERS) or hasattr(x, 'symiter')


def loop(it, names, loc, line):
    return engine.Loop(it, names, loc, line)


def brk():
    raise Unsupported('break/return inside a loop over a symbolic length')


def get_locals():
    return dict(sys._getframe(1).f_locals)


def listcomp(it, f):
    s = as_symiter(it)
    if s is None:
        out = []
        for x in it:
            out += f(x)
        return out
    return symcomp(s, f)


def symcomp(s, f):
    def elem(k):
        r = f(s.elem(k))
        if len(r) != 1:
            raise Unsupported('filtered comprehension over a symbolic length')
        return r[0]
    elem(T.var('%probe', 'I')) if False else None
    return SymSeq(s.dim, elem)


def genexp(it, f):
    s = as_symiter(it)
    if s is None:
        return (y for x in it for y in f(x))
    return symcomp(s, f)


# ------------------------------------------------------------------ builtins
class _TMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._real)


class sym_float(metaclass=_TMeta):
    _real = builtins.float
    _vc = 'R'

    def __new__(cls, x=0):
        if isinstance(x, SymArr):
            x = x._scalar()
        if isinstance(x, Term):
            if x.kind == 'B':
                x = T.b2i(x)
            return T.toreal(x)
        if isinstance(x, str):
            s = x.strip()
            try:
                return T.Term('const', (Fraction(s),), 'R')
            except ValueError:
                return T.from_float(builtins.float(s))
        if isinstance(x, CTerm):
            raise TypeError("can't convert complex to float")
        t = lift_or_none(x)
        if t is not None:
            return T.toreal(t)
        return T.from_float(builtins.float(x))

    @staticmethod
    def _check(x):
        return isinstance(x, builtins.float) or (isinstance(x, Term) and x.kind == 'R')

    @staticmethod
    def fromhex(s):
        return builtins.float.fromhex(s)


class sym_int(metaclass=_TMeta):
    _real = builtins.int
    _vc = 'I'

    def __new__(cls, x=0, *a):
        if isinstance(x, SymArr):
            x = x._scalar()
        if isinstance(x, Term):
            if x.kind == 'B':
                x = T.b2i(x)
            r = T.trunc(x)
            return int(r) if r.op == 'const' else r
        return builtins.int(x, *a)

    @staticmethod
    def _check(x):
        return isinstance(x, builtins.int) or (isinstance(x, Term) and x.kind == 'I')


class sym_bool(metaclass=_TMeta):
    _real = builtins.bool
    _vc = 'B'

    def __new__(cls, x=False):
        return builtins.bool(x)

    @staticmethod
    def _check(x):
        return isinstance(x, builtins.bool) or (isinstance(x, Term) and x.kind == 'B')


class sym_complex(metaclass=_TMeta):
    _real = builtins.complex
    _vc = 'C'

    def __new__(cls, re=0, im=0):
        if isinstance(re, str):
            return lift(builtins.complex(re))
        a, b = lift(re), lift(im)
        if isinstance(a, CTerm):
            return a + b * CTerm(T.ZERO, T.ONE)
        return CTerm(T.toreal(a), T.toreal(b))

    @staticmethod
    def _check(x):
        return isinstance(x, (builtins.complex, CTerm))


def sym_len(x):
    f = getattr(x, 'symlen', None)
    if f is not None:
        return f()
    return builtins.len(x)


def sym_range(*a):
    if any(isinstance(v, Term) and v.op != 'const' for v in a):
        if len(a) == 1:
            return SymRange(A.dimof(a[0]))
        if len(a) == 2 and T.num(lift(a[0])) == 0:
            return SymRange(A.dimof(a[1]))
        raise Unsupported('range with symbolic bounds')
    return builtins.range(*[v.__index__() for v in a])


def _sym(v):
    return isinstance(v, Term) and v.op != 'const'


def crange(first, stop, step):
    """what a while statement counting from first below stop runs over"""
    if _sym(first) or _sym(stop):
        if step != 1:
            raise Unsupported('counting by more than one up to a symbolic limit')
        return sym_range(first, stop)
    return _count(first, stop, step)


def _count(v, stop, step):
    while v < stop:
        yield v
        v = v + step


def counted(first, stop, step):
    """where it ends"""
    if _sym(first) or _sym(stop):
        return stop
    v = first
    for v in _count(first, stop, step):
        v = v + step
    return v


def sym_enumerate(x, start=0):
    s = as_symiter(x)
    if s is not None:
        return SymEnum(s, start)
    return builtins.enumerate(x, start)


def sym_zip(*xs, **kw):
    ss = [as_symiter(x) for x in xs]
    if any(s is not None for s in ss):
        if not all(s is not None for s in ss):
            raise Unsupported('zip of symbolic and concrete')
        return SymZip(ss)
    return builtins.zip(*xs, **kw)


def sym_abs(x):
    return abs(x)


def _fold(f, name):
    def g(*a, **k):
        if builtins.len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymArr):
                if x.dims and x.dims[0] is not None:
                    return A.reduce_(x, name, None, False)
                x = list(x)
            x = list(x)
        else:
            x = list(a)
        if any(isinstance(v, Term) for v in x) and not k:
            r = lift(x[0])
            for v in x[1:]:
                r = f(r, lift(v))
            return r
        return getattr(builtins, name)(*a, **k)
    return g


def sym_sum(x, start=0):
    s = as_symiter(x)
    if s is not None:
        b = T.var('%sumidx', 'I')
        e = s.elem(b)
        return T.bsum(s.dim, b, e) + start
    r = start
    for v in x:
        r = r + v
    return r


def sym_round(x, n=None):
    if isinstance(x, Term):
        if n is None:
            return T.rint(x)
        from .npproxy import round_
        return round_(x, n)
    if isinstance(x, SymArr):
        from .npproxy import round_
        return round_(x, n or 0)
    return builtins.round(x) if n is None else builtins.round(x, n)


def sym_any(x):
    s = as_symiter(x)
    if s is not None:
        raise Unsupported('any over a symbolic length')
    r = False
    for v in x:
        if v:
            return True
    return False


def sym_all(x):
    s = as_symiter(x)
    if s is not None:
        raise Unsupported('all over a symbolic length')
    for v in x:
        if not v:
            return False
    return True


def sym_list(x=()):
    s = as_symiter(x)
    if s is not None:
        return s if isinstance(s, SymSeq) or hasattr(s, 'symiter') else SymSeq(s.dim, s.elem)
    return builtins.list(x)


class sym_listc(metaclass=_TMeta):
    _real = builtins.list

    def __new__(cls, x=()):
        return sym_list(x)

    @staticmethod
    def _check(x):
        return isinstance(x, (builtins.list, SymSeq)) or hasattr(x, 'symiter')


class sym_tuplec(metaclass=_TMeta):
    _real = builtins.tuple

    def __new__(cls, x=()):
        s = as_symiter(x)
        if s is not None:
            return sym_list(x)
        return builtins.tuple(x)

    @staticmethod
    def _check(x):
        return isinstance(x, builtins.tuple)


def sym_map(f, *xs):
    ss = [as_symiter(x) for x in xs]
    if any(s is not None for s in ss):
        z = SymZip(ss)
        return SymSeq(z.dim, lambda k: f(*z.elem(k)))
    return builtins.map(f, *xs)


def sym_divmod(a, b):
    return (a // b, a % b)


BUILTINS = dict(float=sym_float, int=sym_int, complex=sym_complex, len=sym_len,
                range=sym_range, enumerate=sym_enumerate, zip=sym_zip, min=_fold(T.minimum, 'min'),
                max=_fold(T.maximum, 'max'), sum=sym_sum, round=sym_round, any=sym_any, all=sym_all,
                list=sym_listc, map=sym_map, divmod=sym_divmod, pow=pow)


# ------------------------------------------------------------------ math module
class _Math:
    pi = T.PI
    inf = T.INF
    nan = T.NAN
    e = T.fn('exp', T.ONE)
    tau = T.PI * 2

    def __getattr__(self, n):
        import math
        m = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2', 'fabs': 'fabs'}
        q = m.get(n, n)
        if q in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'sqrt', 'exp', 'log', 'radians',
                 'degrees', 'hypot', 'fabs', 'fmod', 'copysign', 'sinh', 'cosh', 'tanh', 'log10', 'isnan', 'isfinite'):
            return getattr(PROXY, q)
        if n == 'floor':
            return lambda x: T.floor(lift(x))
        if n == 'ceil':
            return lambda x: T.neg(T.floor(T.neg(lift(x))))
        if n == 'trunc':
            return lambda x: T.trunc(lift(x))
        f = getattr(math, n)
        if not callable(f):
            return lift(f)
        return lambda *a: asarr_out(f(*concretise(a)))


mod_math = _Math()
mod_cmath = None


def special(name):
    """a function of scipy.special"""
    import scipy.special
    f = getattr(scipy.special, name)
    if name != 'factorial':
        return f

    def factorial(n, exact=False):
        import math
        n, = concretise((n,))
        if np.ndim(n):
            return asarr_out(f(n, exact=exact))
        return T.const(math.factorial(int(n)) if n >= 0 else 0)
    return factorial
