"""Hash-consed terms over the reals, integers and booleans.

Real arithmetic is mathematical (exact): float literals denote the decimal
number that is written in the source, np.pi denotes pi.
"""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    """The code under verification left the subset the engine understands"""


class Term:
    __slots__ = ('op', 'args', 'kind', 'id', '_fv', '__weakref__')
    _table = {}
    _n = 0
    __array_priority__ = 10.0
    __array_ufunc__ = None

    def __new__(cls, op, args, kind):
        key = (op, args, kind)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.kind = kind
            t.id = Term._n
            t._fv = None
            Term._n += 1
            cls._table[key] = t
        return t

    def __hash__(self):
        return self.id

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickle of a symbolic value')

    def __repr__(self):
        return show(self)

    # numpy-scalar-like attributes
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        from . import arr
        return arr.np_dtype_of_kind(self.kind)

    def conjugate(self):
        return self

    conj = conjugate

    def astype(self, dtype, **kw):
        from . import arr
        return arr.cast_elem(self, dtype)

    def copy(self):
        return self

    def item(self):
        return self

    def flatten(self, *a):
        from . import arr
        return arr.asarr(self).flatten()

    def is_integer(self):
        if self.op == 'const':
            return self.args[0].denominator == 1
        raise Unsupported('is_integer of a symbolic value')

    # conversions
    def __float__(self):
        if self.op == 'const':
            return float(self.args[0])
        if self.op == 'pi':
            return math.pi
        v = const_value(self)
        if v is not None:
            return float(v)
        raise Unsupported('float() of a symbolic value %s' % show(self)[:200])

    def __int__(self):
        if self.op == 'const':
            return int(self.args[0])
        raise Unsupported('int() of a symbolic value %s' % show(self)[:200])

    def __index__(self):
        if self.op == 'const' and self.args[0].denominator == 1:
            return int(self.args[0])
        raise Unsupported('use of a symbolic value as an index %s' % show(self)[:200])

    def __complex__(self):
        return complex(float(self))

    def __str__(self):
        if self.op == 'const':
            f = self.args[0]
            return str(int(f)) if self.kind == 'I' else str(float(f))
        return show(self)

    def __format__(self, spec):
        if self.op == 'const':
            v = int(self.args[0]) if self.kind == 'I' else float(self.args[0])
            return format(v, spec)
        return show(self)

    def __round__(self, n=None):
        if n is None or n == 0:
            return rint(self)
        raise Unsupported('round to digits')

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return neg(floor(neg(self)))

    def __bool__(self):
        if self.kind == 'B':
            if self is TRUE:
                return True
            if self is FALSE:
                return False
            from . import engine
            return engine.decide(self)
        return bool(ne(self, ZERO))

    # arithmetic
    def _o(self, other, f, r=False):
        if isinstance(other, Term):
            return f(other, self) if r else f(self, other)
        if isinstance(other, CTerm):
            return NotImplemented
        o = lift_or_none(other)
        if o is None:
            return NotImplemented
        if isinstance(o, CTerm):
            c = CTerm(self, ZERO)
            g = _COPS[f]
            return g(o, c) if r else g(c, o)
        return f(o, self) if r else f(self, o)

    def __add__(self, o): return self._o(o, add)
    def __radd__(self, o): return self._o(o, add, True)
    def __sub__(self, o): return self._o(o, sub)
    def __rsub__(self, o): return self._o(o, sub, True)
    def __mul__(self, o): return self._o(o, mul)
    def __rmul__(self, o): return self._o(o, mul, True)
    def __truediv__(self, o): return self._o(o, div)
    def __rtruediv__(self, o): return self._o(o, div, True)
    def __floordiv__(self, o): return self._o(o, floordiv)
    def __rfloordiv__(self, o): return self._o(o, floordiv, True)
    def __mod__(self, o): return self._o(o, mod)
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._o(o, mod, True)
    def __pow__(self, o): return self._o(o, power)
    def __rpow__(self, o): return self._o(o, power, True)
    def __divmod__(self, o): return (self // o, self % o)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return absv(self)
    def __invert__(self):
        if self.kind == 'B':
            return not_(self)
        raise Unsupported('~ on a number')

    def __and__(self, o): return self._o(o, land)
    __rand__ = __and__
    def __or__(self, o): return self._o(o, lor)
    __ror__ = __or__
    def __xor__(self, o): return self._o(o, lxor)
    __rxor__ = __xor__

    def __lt__(self, o): return self._o(o, lt)
    def __le__(self, o): return self._o(o, le)
    def __gt__(self, o): return self._o(o, gt)
    def __ge__(self, o): return self._o(o, ge)

    def __eq__(self, o):
        if isinstance(o, Term):
            return eq(self, o)
        if o is None or isinstance(o, str):
            return False
        r = self._o(o, eq)
        return r

    def __ne__(self, o):
        if isinstance(o, Term):
            return ne(self, o)
        if o is None or isinstance(o, str):
            return True
        return self._o(o, ne)


class CTerm:
    """A complex number with real and imaginary parts that are terms"""
    __slots__ = ('re', 'im')
    __array_priority__ = 11.0
    __array_ufunc__ = None
    kind = 'C'
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, re, im=None):
        self.re = re
        self.im = ZERO if im is None else im

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def copy(self): return self
    def item(self): return self

    def __hash__(self):
        return hash((self.re.id, self.im.id))

    @property
    def dtype(self):
        from . import arr
        return arr.np_dtype_of_kind('C')

    def astype(self, dtype, **kw):
        from . import arr
        return arr.cast_elem(self, dtype)

    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im

    def conjugate(self):
        return CTerm(self.re, neg(self.im))
    conj = conjugate

    def __repr__(self):
        return '(%r + i*%r)' % (self.re, self.im)

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def _o(self, other, f, r=False):
        o = lift_or_none(other)
        if o is None:
            return NotImplemented
        if isinstance(o, Term):
            o = CTerm(o, ZERO)
        return f(o, self) if r else f(self, o)

    def __add__(self, o): return self._o(o, cadd)
    def __radd__(self, o): return self._o(o, cadd, True)
    def __sub__(self, o): return self._o(o, csub)
    def __rsub__(self, o): return self._o(o, csub, True)
    def __mul__(self, o): return self._o(o, cmul)
    def __rmul__(self, o): return self._o(o, cmul, True)
    def __truediv__(self, o): return self._o(o, cdiv)
    def __rtruediv__(self, o): return self._o(o, cdiv, True)
    def __pow__(self, o): return self._o(o, cpow)
    def __rpow__(self, o): return self._o(o, cpow, True)
    def __neg__(self): return CTerm(neg(self.re), neg(self.im))
    def __pos__(self): return self
    def __abs__(self): return sqrt(add(mul(self.re, self.re), mul(self.im, self.im)))
    def __eq__(self, o):
        r = self._o(o, ceq)
        return r
    def __ne__(self, o):
        r = self._o(o, ceq)
        return r if r is NotImplemented else not_(r)

    def __bool__(self):
        return bool(not_(ceq(self, CTerm(ZERO, ZERO))))


def cadd(a, b): return CTerm(add(a.re, b.re), add(a.im, b.im))
def csub(a, b): return CTerm(sub(a.re, b.re), sub(a.im, b.im))
def cmul(a, b):
    return CTerm(sub(mul(a.re, b.re), mul(a.im, b.im)),
                 add(mul(a.re, b.im), mul(a.im, b.re)))
def cdiv(a, b):
    if b.im is ZERO:
        return CTerm(div(a.re, b.re), div(a.im, b.re))
    d = add(mul(b.re, b.re), mul(b.im, b.im))
    return CTerm(div(add(mul(a.re, b.re), mul(a.im, b.im)), d),
                 div(sub(mul(a.im, b.re), mul(a.re, b.im)), d))
def cpow(a, b):
    if b.im is ZERO and b.re.op == 'const' and b.re.args[0].denominator == 1:
        n = int(b.re.args[0])
        r = CTerm(ONE, ZERO)
        for _ in range(abs(n)):
            r = cmul(r, a)
        if n < 0:
            r = cdiv(CTerm(ONE, ZERO), r)
        return r
    raise Unsupported('complex power')
def ceq(a, b): return land(eq(a.re, b.re), eq(a.im, b.im))


# --------------------------------------------------------------- constants
def const(x, kind=None):
    if isinstance(x, Fraction):
        f = x
    elif isinstance(x, bool):
        return TRUE if x else FALSE
    elif isinstance(x, int):
        f = Fraction(x)
        kind = kind or 'I'
    elif isinstance(x, float):
        return from_float(x)
    else:
        raise TypeError(x)
    return Term('const', (f,), kind or 'R')


def from_float(x):
    if x == math.pi:
        return PI
    if x == -math.pi:
        return neg(PI)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INF if x > 0 else neg(INF)
    return Term('const', (Fraction(repr(x)),), 'R')


def lift_or_none(x):
    """python/numpy scalar to a term; None where it is something else"""
    if isinstance(x, (Term, CTerm)):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return Term('const', (Fraction(x),), 'I')
    if isinstance(x, float):
        # numpy float64 is a float; repr of np.float64 differs
        return from_float(float(x))
    if isinstance(x, Fraction):
        return Term('const', (x,), 'R')
    if isinstance(x, complex):
        return CTerm(from_float(x.real), from_float(x.imag))
    import numpy as np
    if isinstance(x, np.generic):
        if isinstance(x, np.bool_):
            return TRUE if x else FALSE
        if isinstance(x, np.integer):
            return Term('const', (Fraction(int(x)),), 'I')
        if isinstance(x, np.float32):
            return Term('const', (Fraction(float(x)),), 'R')
        if isinstance(x, np.floating):
            return from_float(float(x))
        if isinstance(x, np.complexfloating):
            return CTerm(from_float(float(x.real)), from_float(float(x.imag)))
    return None


def lift(x):
    t = lift_or_none(x)
    if t is None:
        raise Unsupported('cannot treat %r as a symbolic scalar' % type(x))
    return t


PI = Term('pi', (), 'R')
NAN = Term('nan', (), 'R')
INF = Term('inf', (), 'R')
TRUE = Term('true', (), 'B')
FALSE = Term('false', (), 'B')
ZERO = Term('const', (Fraction(0),), 'R')
ONE = Term('const', (Fraction(1),), 'R')
IZERO = Term('const', (Fraction(0),), 'I')
IONE = Term('const', (Fraction(1),), 'I')


def var(name, kind='R'):
    return Term('var', (name,), kind)


_fresh = [0]


def fresh(prefix, kind='R'):
    _fresh[0] += 1
    return Term('var', ('%s#%d' % (prefix, _fresh[0]),), kind)


def app(name, *args, kind='R'):
    """uninterpreted function application"""
    return Term('app', (name,) + tuple(lift(a) for a in args), kind)


def isconst(t):
    return t.op == 'const'


def num(t):
    return t.args[0] if t.op == 'const' else None


def _k(a, b):
    return 'I' if (a.kind in 'IB' and b.kind in 'IB') else 'R'


def b2i(t):
    """boolean used as a number"""
    if t.kind != 'B':
        return t
    if t is TRUE:
        return IONE
    if t is FALSE:
        return IZERO
    return ite(t, IONE, IZERO)


def _co(a, b):
    """integer constants among reals are real constants"""
    if a.kind == 'R' and b.kind == 'I' and b.op == 'const':
        return a, Term('const', b.args, 'R')
    if b.kind == 'R' and a.kind == 'I' and a.op == 'const':
        return Term('const', a.args, 'R'), b
    return a, b


def add(a, b):
    a, b = _co(b2i(a), b2i(b))
    if a is NAN or b is NAN:
        return NAN
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return Term('const', (x + y,), _k(a, b))
    if x == 0 and (a.kind == 'I' or b.kind == 'R'):
        return b
    if y == 0 and (b.kind == 'I' or a.kind == 'R'):
        return a
    if y is not None and a.op == 'add' and num(a.args[1]) is not None and a.args[0].kind == _k(a, b):
        # (u + c) + d
        return add(a.args[0], Term('const', (num(a.args[1]) + y,), a.args[1].kind))
    return Term('add', (a, b), _k(a, b))


def neg(a):
    a = b2i(a)
    if a is NAN:
        return NAN
    x = num(a)
    if x is not None:
        return Term('const', (-x,), a.kind)
    return mul(Term('const', (Fraction(-1),), 'I'), a)


def sub(a, b):
    a, b = b2i(a), b2i(b)
    if a is b and a is not NAN:
        return IZERO if a.kind == 'I' else ZERO
    return add(a, neg(b))


def mul(a, b):
    if a.kind == 'B' and b.kind == 'B':
        return land(a, b)
    a, b = _co(b2i(a), b2i(b))
    if a is NAN or b is NAN:
        return NAN
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return Term('const', (x * y,), _k(a, b))
    k = _k(a, b)
    if x == 0 or y == 0:
        return IZERO if k == 'I' else ZERO
    if x == 1 and b.kind == k:
        return b
    if y == 1 and a.kind == k:
        return a
    if y is not None:
        a, b, x, y = b, a, y, x
    if x is not None and b.op == 'mul' and b.args[0].op == 'const':
        return mul(Term('const', (x * b.args[0].args[0],), 'R' if k == 'R' else 'I'), b.args[1])
    return Term('mul', (a, b), k)


def div(a, b):
    a, b = b2i(a), b2i(b)
    if a is NAN or b is NAN:
        return NAN
    y = num(b)
    if y is not None:
        if y == 0:
            x = num(a)
            if x is not None and x != 0:
                return INF if x > 0 else neg(INF)
            return NAN
        return mul(Term('const', (1 / y,), 'R'), a)
    if b is INF:
        return ZERO
    x = num(a)
    if x == 0:
        return ZERO
    if a is b:
        return ONE
    return Term('div', (a, b), 'R')


def power(a, b):
    a, b = b2i(a), b2i(b)
    y = num(b)
    if y is not None and y.denominator == 1:
        n = int(y)
        k = a.kind if n >= 0 else 'R'
        if b.kind == 'R':
            k = 'R'
        x = num(a)
        if x is not None and (n >= 0 or x != 0):
            return Term('const', (x ** n,), k)
        if n == 0:
            return IONE if k == 'I' else ONE
        if n == 1:
            return a
        if n > 0:
            return Term('ipow', (a, n), k)
        return div(ONE, power(a, Term('const', (Fraction(-n),), 'I')))
    if y is not None and y.denominator == 2:
        r = sqrt(a)
        return power(r, Term('const', (y * 2,), 'I'))
    x = num(a)
    if y is not None:
        return Term('fn', ('pow', a, b), 'R')
    if x is not None and x == -1 and b.kind == 'I':
        return Term('fn', ('negonepow', b), 'R')
    return Term('fn', ('pow', a, b), 'R')


def floor(a):
    a = b2i(a)
    if a.kind == 'I':
        return a
    x = num(a)
    if x is not None:
        return Term('const', (Fraction(math.floor(x)),), 'I')
    if a is PI:
        return Term('const', (Fraction(3),), 'I')
    if a is NAN or a is INF:
        return NAN
    return Term('floor', (a,), 'I')


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    a = b2i(a)
    if a.kind == 'I':
        return a
    return ite(ge(a, ZERO), floor(a), ceil(a))


def rint(a):
    """round half to even"""
    a = b2i(a)
    if a.kind == 'I':
        return a
    x = num(a)
    if x is not None:
        return Term('const', (Fraction(round(x)),), 'I')
    f = floor(add(a, const(Fraction(1, 2))))
    # half way cases go to the even neighbour
    half = eq(f, add(a, const(Fraction(1, 2))))
    odd = eq(mod(f, Term('const', (Fraction(2),), 'I')), IONE)
    return ite(land(half, odd), sub(f, IONE), f)


def floordiv(a, b):
    a, b = b2i(a), b2i(b)
    x, y = num(a), num(b)
    k = _k(a, b)
    if x is not None and y is not None and y != 0:
        return Term('const', (Fraction(math.floor(x / y)),), k)
    q = div(a, b)
    r = Term('floor', (q,), 'I') if num(q) is None else floor(q)
    return r if k == 'I' else toreal(r)


def toreal(a):
    if a.kind == 'R':
        return a
    if a.kind == 'B':
        a = b2i(a)
    if a.op == 'const':
        return Term('const', a.args, 'R')
    return Term('toreal', (a,), 'R')


def mod(a, b):
    a, b = b2i(a), b2i(b)
    x, y = num(a), num(b)
    if x is not None and y is not None and y != 0:
        return Term('const', (x - y * math.floor(x / y),), _k(a, b))
    q = div(a, b)
    return sub(a, mul(b, floor(q) if q.kind != 'I' else q))


def absv(a):
    a = b2i(a)
    x = num(a)
    if x is not None:
        return Term('const', (abs(x),), a.kind)
    if a is PI or (a.op == 'fn' and a.args[0] in ('sqrt', 'exp', 'abs')):
        return a
    return Term('fn', ('abs', a), a.kind)


def sign(a):
    a = b2i(a)
    x = num(a)
    if x is not None:
        return Term('const', (Fraction((x > 0) - (x < 0)),), a.kind)
    one = IONE if a.kind == 'I' else ONE
    z = IZERO if a.kind == 'I' else ZERO
    return ite(gt(a, z), one, ite(lt(a, z), neg(one), z))


def _isqrt(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(a):
    a = b2i(a)
    x = num(a)
    if x is not None and x >= 0:
        p, q = _isqrt(x.numerator), _isqrt(x.denominator)
        if p is not None and q is not None:
            return Term('const', (Fraction(p, q),), 'R')
    if x is not None and x < 0:
        return NAN
    if a is NAN:
        return NAN
    return Term('fn', ('sqrt', a), 'R')


def fn(name, *args):
    args = tuple(b2i(lift(a)) for a in args)
    if any(a is NAN for a in args):
        return NAN
    if name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh') and num(args[0]) == 0:
        return ZERO
    if name in ('cos', 'exp', 'cosh') and num(args[0]) == 0:
        return ONE
    if name == 'log' and num(args[0]) == 1:
        return ZERO
    return Term('fn', (name,) + args, 'R')


# --------------------------------------------------------------- booleans
_infs = {}


def infsign(a):
    """1, -1: plus or minus infinity; 0: finite; None: not known"""
    if a is INF:
        return 1
    r = _infs.get(a.id, 2)
    if r != 2:
        return r
    r = 0
    if a.op == 'add':
        s = [infsign(x) for x in a.args]
        t = {x for x in s if x != 0}
        r = 0 if not t else t.pop() if len(t) == 1 else None
    elif a.op == 'mul':
        s = [infsign(x) for x in a.args]
        if s != [0, 0]:
            r = None
            for k in (0, 1):
                n = num(a.args[k])
                if n is not None and n != 0 and s[1 - k]:
                    r = s[1 - k] * (1 if n > 0 else -1)
    elif any(x is INF for x in subterms(a)):
        r = None
    _infs[a.id] = r
    return r


def lt(a, b):
    a, b = _co(b2i(a), b2i(b))
    if a is NAN or b is NAN:
        return FALSE
    x, y = cval(a), cval(b)
    if x is not None and y is not None:
        return TRUE if x < y else FALSE
    if a is b:
        return FALSE
    u, v = infsign(a), infsign(b)
    if u is not None and v is not None and (u or v):
        return TRUE if u < v else FALSE
    return Term('lt', (a, b), 'B')


def le(a, b):
    a, b = _co(b2i(a), b2i(b))
    if a is NAN or b is NAN:
        return FALSE
    x, y = cval(a), cval(b)
    if x is not None and y is not None:
        return TRUE if x <= y else FALSE
    if a is b:
        return TRUE
    u, v = infsign(a), infsign(b)
    if u is not None and v is not None and (u or v):
        return TRUE if u <= v else FALSE
    return Term('le', (a, b), 'B')


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def cval(a):
    """numeric value of the simplest constants, used to order them"""
    if a.op == 'const':
        return a.args[0]
    return None


def eq(a, b):
    if a.kind == 'B' and b.kind == 'B':
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return lor(land(a, b), land(not_(a), not_(b)))
    a, b = _co(b2i(a), b2i(b))
    if a is NAN or b is NAN:
        return FALSE
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return TRUE if x == y else FALSE
    if a is b:
        return TRUE
    if a is INF or b is INF:
        return FALSE
    # ite with constant branches against a constant
    if y is not None and a.op == 'ite':
        p, q = num(a.args[1]), num(a.args[2])
        if p is not None or q is not None or a.args[1] is NAN or a.args[2] is NAN:
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if x is not None and b.op == 'ite':
        return eq(b, a)
    if b.id < a.id:
        a, b = b, a
    return Term('eq', (a, b), 'B')


def ne(a, b):
    return not_(eq(a, b))


def tobool(a):
    if a.kind == 'B':
        return a
    return ne(a, IZERO if a.kind == 'I' else ZERO)


def not_(a):
    a = tobool(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt' and not _maybe_nan(a):
        return Term('le', (a.args[1], a.args[0]), 'B')
    if a.op == 'le' and not _maybe_nan(a):
        return Term('lt', (a.args[1], a.args[0]), 'B')
    return Term('not', (a,), 'B')


def _maybe_nan(a):
    return False


def land(a, b):
    a, b = tobool(a), tobool(b)
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if not_(a) is b:
        return FALSE
    return _junction('and', a, b, FALSE)


def _leaves(op, a, out, limit):
    if a.op != op:
        out[a.id] = a
    else:
        for x in a.args:
            if len(out) > limit:
                return
            _leaves(op, x, out, limit)


def _junction(op, a, b, absorbing):
    """conjunctions and disjunctions as sorted chains of different members"""
    if a.op == op or b.op == op:
        out = {}
        _leaves(op, a, out, 16)
        _leaves(op, b, out, 16)
        if len(out) <= 16:
            r = None
            for k in sorted(out):
                if not_(out[k]).id in out:
                    return absorbing
                r = out[k] if r is None else Term(op, (r, out[k]), 'B')
            return r
    return Term(op, (a, b) if a.id < b.id else (b, a), 'B')


def lor(a, b):
    a, b = tobool(a), tobool(b)
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    if not_(a) is b:
        return TRUE
    return _junction('or', a, b, TRUE)


def lxor(a, b):
    a, b = tobool(a), tobool(b)
    return lor(land(a, not_(b)), land(not_(a), b))


def implies(a, b):
    return lor(not_(a), b)


def conj(ts):
    r = TRUE
    for t in ts:
        r = land(r, t)
    return r


def disj(ts):
    r = FALSE
    for t in ts:
        r = lor(r, t)
    return r


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    c = tobool(c)
    if isinstance(a, CTerm) or isinstance(b, CTerm):
        a = a if isinstance(a, CTerm) else CTerm(a, ZERO)
        b = b if isinstance(b, CTerm) else CTerm(b, ZERO)
        return CTerm(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.kind == 'B' or b.kind == 'B':
        if a.kind == 'B' and b.kind == 'B':
            return lor(land(c, a), land(not_(c), b))
        a, b = b2i(a), b2i(b)
    if a.op == 'const' and b.op == 'const' and a.args[0] == b.args[0]:
        return toreal(a)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    k = 'I' if (a.kind == 'I' and b.kind == 'I') else 'R'
    return Term('ite', (c, a, b), k)


def minimum(a, b):
    return ite(le(a, b), a, b)


def maximum(a, b):
    return ite(ge(a, b), a, b)


_COPS = {add: cadd, sub: csub, mul: cmul, div: cdiv, power: cpow, eq: ceq,
         ne: lambda a, b: not_(ceq(a, b))}


# --------------------------------------------------------------- binders
def bsum(dim, bvar, body):
    """sum over 0 <= bvar < dim of body"""
    if isinstance(body, CTerm):
        return CTerm(bsum(dim, bvar, body.re), bsum(dim, bvar, body.im))
    body = b2i(body)
    if body.op == 'const' and body.args[0] == 0:
        return body
    return Term('sum', (dim, bvar, body), body.kind)


_depth = {}


def bdepth(t):
    """nesting depth of binders in a term"""
    r = _depth.get(t.id)
    if r is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in _depth:
                stack.pop()
                continue
            todo = [c for c in children(x) if c.id not in _depth]
            if todo:
                stack.extend(todo)
                continue
            d = 0
            for c in children(x):
                d = max(d, _depth[c.id])
            if x.op in ('sum', 'exists'):
                d += 1
            _depth[x.id] = d
            stack.pop()
        r = _depth[t.id]
    return r


def bindvar(dim, elems):
    """canonical bound variable: equal bodies give identical terms"""
    d = 0
    for e in elems:
        for x in ((e.re, e.im) if isinstance(e, CTerm) else (e,) if isinstance(e, Term) else ()):
            d = max(d, bdepth(x))
    return var('%%b:%s:%d' % (dim, d), 'I')


def bexists(dim, bvar, body):
    body = tobool(body)
    if body is FALSE:
        return FALSE
    if bvar.id not in freevars(body):
        # dimensions under contract are non-empty
        return body
    return Term('exists', (dim, bvar, body), 'B')


# --------------------------------------------------------------- traversal
def children(t):
    for a in t.args:
        if isinstance(a, Term):
            yield a


def freevars(t):
    """frozenset of ids of the variables in t"""
    if t._fv is not None:
        return t._fv
    stack = [t]
    while stack:
        x = stack[-1]
        if x._fv is not None:
            stack.pop()
            continue
        todo = [c for c in children(x) if c._fv is None]
        if todo:
            stack.extend(todo)
            continue
        if x.op == 'var':
            x._fv = frozenset((x.id,))
        else:
            s = frozenset()
            for c in children(x):
                s = s | c._fv
            if x.op in ('sum', 'exists'):
                s = s - {x.args[1].id}
            x._fv = s
        stack.pop()
    return t._fv


_BUILD = {
    'add': add, 'mul': mul, 'div': div, 'floor': floor, 'lt': lt, 'le': le,
    'eq': eq, 'not': not_, 'and': land, 'or': lor, 'ite': ite, 'toreal': toreal,
}


def rebuild(t, args):
    op = t.op
    f = _BUILD.get(op)
    if f is not None:
        return f(*args)
    if op == 'ipow':
        return power(args[0], Term('const', (Fraction(args[1]),), 'I'))
    if op == 'fn':
        n = args[0]
        if n == 'sqrt':
            return sqrt(args[1])
        if n == 'abs':
            return absv(args[1])
        if n in ('pow', 'negonepow'):
            return power(args[1], args[2]) if n == 'pow' else power(const(-1), args[1])
        return fn(n, *args[1:])
    if op == 'app':
        return _simp_app(Term('app', tuple(args), t.kind))
    return Term(op, tuple(args), t.kind)


def _simp_app(t):
    n = t.args[0]
    # quotient and remainder of a position by a constant step
    if isinstance(n, tuple) and n[0] in ('quo', 'rem'):
        return quorem(n[0], n[1], t.args[1], t)
    # packing of two indices into one and the projections back
    if isinstance(n, tuple) and n[0] in ('unpack0', 'unpack1') and t.args[1].op == 'app':
        m = t.args[1].args[0]
        if isinstance(m, tuple) and m[0] == 'pack' and m[1] == n[1]:
            return t.args[1].args[1 if n[0] == 'unpack0' else 2]
    if isinstance(n, tuple) and n[0] == 'pack':
        a, b = t.args[1], t.args[2]
        if a.op == 'app' and b.op == 'app' and a.args[0] == ('unpack0', n[1]) \
                and b.args[0] == ('unpack1', n[1]) and a.args[1] is b.args[1]:
            return a.args[1]
    return t


def divided(x, step):
    """(quotient, remainder) of an integer by a number, where x is visibly the sum of
    multiples of the number and a constant; otherwise None"""
    x = lift(x)
    v = num(x)
    if v is not None:
        q, r = divmod(int(v), step)
        return Term('const', (Fraction(q),), 'I'), r
    if x.op == 'add':
        a, b = divided(x.args[0], step), divided(x.args[1], step)
        if a is None or b is None:
            return None
        q, r = divmod(a[1] + b[1], step)
        return add(add(a[0], b[0]), Term('const', (Fraction(q),), 'I')), r
    if x.op == 'mul':
        for a, b in (x.args, x.args[::-1]):
            d = divided(a, step)
            if d is None:
                continue
            if d[1] == 0:
                return mul(d[0], b), 0
            n = num(b)
            if n is not None:
                q, r = divmod(d[1] * int(n), step)
                return add(mul(d[0], b), Term('const', (Fraction(q),), 'I')), r
    return None


def quorem(what, step, x, t=None):
    """quotient or remainder of an integer by a number"""
    d = divided(x, step)
    if d is not None:
        return d[0] if what == 'quo' else Term('const', (Fraction(d[1]),), 'I')
    return t if t is not None else Term('app', ((what, step), lift(x)), 'I')


def subst(t, m):
    """substitute variables (dict Term->Term); bound variables are fresh so no capture"""
    if isinstance(t, CTerm):
        return CTerm(subst(t.re, m), subst(t.im, m))
    if not isinstance(t, Term):
        return t
    ids = frozenset(k.id for k in m)
    if not (freevars(t) & ids):
        return t
    memo = {}

    def go(x):
        if not (freevars(x) & ids):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'var':
            r = m[x]
        elif x.op in ('sum', 'exists'):
            # rename the bound variable where the substitution could capture it
            bv, body = x.args[1], x.args[2]
            cap = any(bv.id in freevars(m[k]) for k in m if k.id in freevars(x))
            if cap:
                nb = fresh('b', 'I')
                body = subst(body, {bv: nb})
                bv = nb
            mm = {k: v for k, v in m.items() if k is not bv}
            nbody = subst(body, mm)
            r = bsum(x.args[0], bv, nbody) if x.op == 'sum' else bexists(x.args[0], bv, nbody)
        else:
            r = rebuild(x, [go(a) if isinstance(a, Term) else a for a in x.args])
        memo[x.id] = r
        return r
    return go(t)


def replace_terms(t, m):
    """replace whole subterms (dict id->Term)"""
    memo = {}

    def go(x):
        if x.id in m:
            return m[x.id]
        r = memo.get(x.id)
        if r is None:
            if not any(isinstance(a, Term) for a in x.args):
                r = x
            else:
                r = rebuild(x, [go(a) if isinstance(a, Term) else a for a in x.args])
            memo[x.id] = r
        return r
    return go(t)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(children(x))


def const_value(t):
    """float value of a closed term"""
    if freevars(t):
        return None
    try:
        return ev(t, {})
    except Exception:
        return None


def show(t, depth=12):
    if isinstance(t, CTerm):
        return repr(t)
    if not isinstance(t, Term):
        return str(t)
    if depth == 0:
        return '...'
    if t.op == 'const':
        f = t.args[0]
        if f.denominator == 1:
            return str(f.numerator)
        v = float(f)
        return repr(v) if Fraction(repr(v)) == f else str(f)
    if t.op == 'var':
        return t.args[0]
    if t.op == 'app':
        n = t.args[0]
        n = n if isinstance(n, str) else '_'.join(str(x) for x in n)
        return '%s(%s)' % (n, ', '.join(show(a, depth - 1) for a in t.args[1:]))
    if t.op == 'fn':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, depth - 1) for a in t.args[1:]))
    sym = {'add': ' + ', 'mul': '*', 'div': '/', 'lt': ' < ', 'le': ' <= ', 'eq': ' == ',
           'and': ' and ', 'or': ' or '}.get(t.op)
    if sym:
        return '(' + sym.join(show(a, depth - 1) for a in t.args) + ')'
    if not t.args:
        return t.op
    return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) for a in t.args))


# --------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def ev(t, env, m=math):
    """numerical value of a term, env maps variables (by name) and
    uninterpreted functions ((name, args) callables) to numbers"""
    memo = {}

    def go(x):
        r = memo.get(x.id, memo)
        if r is not memo:
            return r
        r = go1(x)
        if not _has_bound(x):
            memo[x.id] = r
        return r

    def _has_bound(x):
        return False

    def go1(x):
        op, a = x.op, x.args
        if op == 'const':
            f = a[0]
            return int(f) if (x.kind == 'I') else (m.mpf(f.numerator) / f.denominator if m is not math else f.numerator / f.denominator)
        if op == 'pi':
            return +m.pi
        if op == 'var':
            if a[0] in env:
                return env[a[0]]
            raise EvalError('no value for %s' % a[0])
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'nan':
            return float('nan')
        if op == 'inf':
            return float('inf')
        if op == 'app':
            f = env.get(('app', a[0]))
            if f is None:
                raise EvalError('no interpretation for %s' % (a[0],))
            return f(*[go(y) for y in a[1:]])
        if op == 'and':
            return go(a[0]) and go(a[1])
        if op == 'or':
            return go(a[0]) or go(a[1])
        if op == 'not':
            return not go(a[0])
        if op == 'ite':
            return go(a[1]) if go(a[0]) else go(a[2])
        if op == 'add':
            return go(a[0]) + go(a[1])
        if op == 'mul':
            return go(a[0]) * go(a[1])
        if op == 'div':
            d = go(a[1])
            if d == 0:
                raise EvalError('division by zero')
            return go(a[0]) / d
        if op == 'ipow':
            return go(a[0]) ** a[1]
        if op == 'toreal':
            return go(a[0])
        if op == 'floor':
            return int(m.floor(go(a[0])))
        if op == 'lt':
            return go(a[0]) < go(a[1])
        if op == 'le':
            return go(a[0]) <= go(a[1])
        if op == 'eq':
            return go(a[0]) == go(a[1])
        if op == 'fn':
            n = a[0]
            v = [go(y) for y in a[1:]]
            try:
                if n == 'abs':
                    return abs(v[0])
                if n == 'pow':
                    return v[0] ** v[1]
                if n == 'negonepow':
                    return -1 if v[0] % 2 else 1
                return getattr(m, n)(*v)
            except (ValueError, OverflowError, ZeroDivisionError, TypeError) as e:
                raise EvalError(str(e))
        raise EvalError('cannot evaluate %s' % op)
    return go(t)


# ------------------------------------------------------- propositional forms
def _atoms(b, out, limit):
    if b.op in ('and', 'or', 'not'):
        for a in b.args:
            _atoms(a, out, limit)
    elif b.op == 'ite' and b.kind == 'B':
        for a in b.args:
            _atoms(a, out, limit)
    elif b is not TRUE and b is not FALSE:
        out[b.id] = b
        if len(out) > limit:
            raise ValueError


def _cofactor(b, a, v, memo):
    r = memo.get(b.id)
    if r is None:
        if b is a:
            r = TRUE if v else FALSE
        elif b.op == 'and':
            r = conj([_cofactor(x, a, v, memo) for x in b.args])
        elif b.op == 'or':
            r = disj([_cofactor(x, a, v, memo) for x in b.args])
        elif b.op == 'not':
            r = not_(_cofactor(b.args[0], a, v, memo))
        elif b.op == 'ite' and b.kind == 'B':
            c, x, y = [_cofactor(x, a, v, memo) for x in b.args]
            r = lor(land(c, x), land(not_(c), y))
        else:
            r = b
        memo[b.id] = r
    return r


def canon(b, limit=10):
    """a formula depending only on the boolean function of its atoms"""
    b = tobool(b)
    atoms = {}
    try:
        _atoms(b, atoms, limit)
    except ValueError:
        return b
    # one polarity of each atom: a < b and b <= a
    for k in sorted(atoms):
        n = not_(atoms[k])
        if n.id in atoms and n.id > k and k in atoms and n.op != 'not':
            m = {n.id: not1(atoms[k])}
            b = _replace_atoms(b, m)
    atoms = {}
    _atoms(b, atoms, limit)
    order = [atoms[k] for k in sorted(atoms)]
    memo = {}

    def go(f, i):
        if f is TRUE or f is FALSE:
            return f
        key = (f.id, i)
        r = memo.get(key)
        if r is None:
            a = order[i]
            hi, lo = go(_cofactor(f, a, True, {}), i + 1), go(_cofactor(f, a, False, {}), i + 1)
            r = hi if hi is lo else lor(land(a, hi), land(not_(a), lo))
            if hi is TRUE:
                r = lor(a, lo)
            elif lo is TRUE:
                r = lor(not_(a), hi)
            memo[key] = r
        return r
    return go(b, 0)


def not1(a):
    return Term('not', (a,), 'B')


def _replace_atoms(b, m):
    if b.id in m:
        return m[b.id]
    if b.op in ('and', 'or', 'not') or (b.op == 'ite' and b.kind == 'B'):
        args = tuple(_replace_atoms(x, m) for x in b.args)
        if b.op == 'and':
            return conj(args)
        if b.op == 'or':
            return disj(args)
        if b.op == 'not':
            return not_(args[0])
        return lor(land(args[0], args[1]), land(not_(args[0]), args[2]))
    return b


def under(v, h):
    """v where h holds: branches that are excluded propositionally are dropped"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x.op == 'ite':
                if canon(land(h, x.args[0])) is FALSE:
                    r = go(x.args[2])
                elif canon(land(h, not_(x.args[0]))) is FALSE:
                    r = go(x.args[1])
                else:
                    r = ite(x.args[0], go(x.args[1]), go(x.args[2]))
            elif x.op in ('sum', 'exists') or not any(isinstance(a, Term) for a in x.args) or x.kind == 'B':
                r = x
            else:
                r = rebuild(x, [go(a) if isinstance(a, Term) else a for a in x.args])
            memo[x.id] = r
        return r
    return go(v)
