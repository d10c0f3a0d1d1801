"""Symbolic numpy arrays.

An axis has either a concrete length (unrolled) or a symbolic Dim; along a
symbolic axis only the *generic element* is stored, written with the index
variable IX[p] where p is the position of the axis counted from the right.
Elementwise operations on the generic element hold for every index and every
length of that axis.
"""
import builtins
import functools
import itertools
import numpy as np
from fractions import Fraction
from . import terms as T
from .terms import Term, CTerm, Unsupported, lift, lift_or_none

IX = [T.var('ix%d' % p, 'I') for p in range(12)]


class Dim:
    """a symbolic axis length; by contract 2 <= length (length-1 axes are
    separate instances of the contract)"""
    table = {}

    def __new__(cls, name, factors=None):
        d = cls.table.get(name)
        if d is None:
            d = object.__new__(cls)
            d.name = name
            d.factors = factors
            d.term = T.var('len(%s)' % name, 'I') if factors is None else \
                T.mul(factors[0].term if isinstance(factors[0], Dim) else T.const(factors[0]),
                      factors[1].term if isinstance(factors[1], Dim) else T.const(factors[1]))
            cls.table[name] = d
        return d

    def __repr__(self):
        return self.name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return self is o


def dimof(x):
    """int or integer term -> axis length (int or Dim)"""
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, Dim):
        return x
    if isinstance(x, SymArr) and x.ndim == 0:
        x = x.item()
    if isinstance(x, Term):
        if x.op == 'const':
            return int(x)
        for d in Dim.table.values():
            if d.term is x:
                return d
        from . import nf
        for d in Dim.table.values():
            if nf.is_zero(T.sub(d.term, x)):
                return d
        # product of two dims
        if x.op == 'mul':
            a, b = dimof(x.args[0]), dimof(x.args[1])
            return proddim(a, b)
        # max(n, m) and the like: decided, or forked, on the condition
        y = decided(x)
        if y is not x:
            return dimof(y)
        # n - 1, i - j, ...
        if x.kind == 'I':
            d = Dim('(%s)' % T.show(x))
            d.term = x
            d.derived = True
            return d
        raise Unsupported('array length %s' % T.show(x))
    raise Unsupported('array length of type %s' % type(x))


def decided(x):
    """a term with its cases decided, or forked, on their conditions"""
    if not isinstance(x, Term) or x.op in ('var', 'const', 'app', 'sum', 'exists', 'minover', 'maxover', 'argover'):
        return x
    if x.op == 'ite':
        return decided(x.args[1] if x.args[0] else x.args[2])
    if x.op == 'fn' and x.args[0] == 'abs':
        a = decided(x.args[1])
        return a if T.ge(a, T.ZERO) else -a
    args = [decided(a) for a in x.args]
    if all(a is b for a, b in zip(args, x.args)):
        return x
    return T.rebuild(x, args)


def proddim(a, b):
    if a == 1:
        return b
    if b == 1:
        return a
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return Dim('%s*%s' % (a, b), (a, b))


def dimterm(d):
    return d.term if isinstance(d, Dim) else d


# ------------------------------------------------------------------- dtypes
class SymDtype:
    def __init__(self, kind):
        self.k = kind

    @property
    def kind(self):
        return {'R': 'f', 'I': 'i', 'B': 'b', 'C': 'c', 'O': 'O'}[self.k]

    def __eq__(self, o):
        return kind_of_dtype(o) == self.k

    def __hash__(self):
        return hash(self.k)

    @property
    def type(self):
        return {'R': np.float64, 'I': np.int64, 'B': np.bool_, 'C': np.complex128, 'O': object}[self.k]

    def __repr__(self):
        return 'symdtype(%s)' % self.k

    @property
    def names(self):
        return None


_DT = {k: SymDtype(k) for k in 'RIBCO'}


def np_dtype_of_kind(k):
    return _DT[k]


def kind_of_dtype(dt):
    if dt is None:
        return 'R'
    if isinstance(dt, SymDtype):
        return dt.k
    n = getattr(dt, '__name__', None)
    if dt in (float, 'f', 'd', 'f8', 'f4', 'float') or n == 'sym_float':
        return 'R'
    if dt in (int, 'i', 'int') or n == 'sym_int':
        return 'I'
    if dt is bool or n == 'sym_bool':
        return 'B'
    if dt is complex or n == 'sym_complex':
        return 'C'
    if dt is object:
        return 'O'
    d = np.dtype(dt)
    return {'f': 'R', 'i': 'I', 'u': 'I', 'b': 'B', 'c': 'C', 'O': 'O', 'U': 'O', 'S': 'O', 'V': 'O', 'M': 'O', 'm': 'O'}[d.kind]


def wire_of(dtype):
    """bytes of a number in a file"""
    if isinstance(dtype, str) or isinstance(dtype, np.dtype):
        return np.dtype(dtype).str
    return None


def cast_elem(x, dtype):
    k = kind_of_dtype(dtype)
    return cast(x, k)


def cast(x, k):
    if k == 'O':
        return x
    if not isinstance(x, (Term, CTerm)):
        y = lift_or_none(x)
        if y is None:
            if isinstance(x, (str, np.str_)) and k in 'RI':
                y = lift(float(x)) if k == 'R' else lift(int(x))
            else:
                raise Unsupported('cast of %r' % (x,))
        x = y
    if k == 'C':
        return x if isinstance(x, CTerm) else CTerm(T.toreal(x) if x.kind != 'R' else x, T.ZERO)
    if isinstance(x, CTerm):
        x = x.re
    if k == 'R':
        return T.toreal(x) if x.kind != 'R' else x
    if k == 'I':
        return T.trunc(x)
    if k == 'B':
        return T.tobool(x)
    raise Unsupported('cast to ' + k)


def kindof(x):
    return 'C' if isinstance(x, CTerm) else x.kind if isinstance(x, Term) else 'O'


_KORD = {'B': 0, 'I': 1, 'R': 2, 'C': 3, 'O': 4}


def maxkind(ks):
    r = 'B'
    for k in ks:
        if _KORD[k] > _KORD[r]:
            r = k
    return r


def _obj(shape):
    return np.empty(shape, dtype=object)


def _obj_full(shape, v):
    a = np.empty(shape, dtype=object)
    a.fill(v)
    if a.ndim == 0:
        a[()] = v
    return a


def sub_elem(x, m):
    if isinstance(x, (Term, CTerm)):
        return T.subst(x, m)
    return x


def map_obj(f, a):
    out = _obj(a.shape)
    if a.ndim == 0:
        out[()] = f(a[()])
        return out
    fo, fi = out.ravel(), a.ravel()
    for i in range(fi.size):
        fo[i] = f(fi[i])
    return fo.reshape(a.shape)


def rename(a, m):
    """substitute index variables in every element"""
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return a
    return map_obj(lambda x: sub_elem(x, m), a)


_writes = []          # write observers (used by the loop rule)


class SymArr:
    __array_priority__ = 1000.0
    __array_ufunc__ = None
    is_ma = False

    def __init__(self, a, dims, kind, writable=True):
        assert isinstance(a, np.ndarray) and a.dtype == object
        assert a.ndim == len(dims), (a.shape, dims)
        for n, d in zip(a.shape, dims):
            assert d is None or n == 1
        self.a = a
        self.dims = tuple(dims)
        self.kind = kind
        self.writable = writable

    # form in a file, where it was chosen
    wire = None

    def wired(self, dtype):
        self.wire = wire_of(dtype) or self.wire
        return self

    def tofile(self, fid, sep='', format='%s'):
        fid.tofile(self)

    def tobytes(self, order='C'):
        from . import vfile
        return vfile.Bytes([vfile.piece(self)])

    # ---------------------------------------------------------------- basics
    def _touch(self):
        if not self.writable:
            raise Unsupported('write through a re-indexed view')
        for w in _writes:
            w(self)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def lens(self):
        return tuple(d if d is not None else n for n, d in zip(self.a.shape, self.dims))

    @property
    def shape(self):
        return tuple(d.term if d is not None else n for n, d in zip(self.a.shape, self.dims))

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self.a, self.dims = r.a, r.dims

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def dtype(self):
        return _DT[self.kind]

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return iter(self.flatten())

    @property
    def data(self):
        return self

    @property
    def base(self):
        return None

    def __array__(self, dtype=None, copy=None):
        if any(d is not None for d in self.dims):
            raise Unsupported('a symbolic array left the verified code')
        return np.array([_tofloat(x) for x in self.a.ravel()]).reshape(self.a.shape)

    def concrete(self):
        """real numpy array when all the elements are constants"""
        if any(d is not None for d in self.dims):
            raise Unsupported('a symbolic array where a concrete one is needed')
        if self.kind == 'O':
            return self.a
        v = [_toval(x) for x in self.a.ravel()]
        return np.array(v, dtype={'R': float, 'I': int, 'B': bool, 'C': complex}[self.kind]).reshape(self.a.shape)

    def is_const(self):
        return all(d is None for d in self.dims) and all(
            (isinstance(x, Term) and x.op in ('const', 'true', 'false', 'pi', 'nan')) or
            not isinstance(x, (Term, CTerm)) for x in self.a.ravel())

    def item(self, *a):
        if self.a.size == 1 and not any(d is not None for d in self.dims):
            return self.a.ravel()[0]
        raise Unsupported('item() of an array')

    def tolist(self):
        if any(d is not None for d in self.dims):
            raise Unsupported('tolist of a symbolic array')
        return self.a.tolist()

    def __len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        if self.dims[0] is not None:
            raise Unsupported('len of a symbolic axis through C code')
        return self.a.shape[0]

    def symlen(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        if self.dims[0] is not None:
            raise Unsupported('iteration over a symbolic axis outside a loop statement')
        return (self[i] for i in range(self.a.shape[0]))

    def __bool__(self):
        if self.a.size == 1 and not any(d is not None for d in self.dims):
            return bool(self.a.ravel()[0])
        if any(d is not None for d in self.dims):
            raise Unsupported('truth value of a symbolic array')
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def _scalar(self):
        if self.a.size == 1 and not any(d is not None for d in self.dims):
            return self.a.ravel()[0]
        if any(d is not None for d in self.dims):
            raise Unsupported('scalar conversion of a symbolic array')
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __float__(self): return float(self._scalar())
    def __int__(self): return int(self._scalar())
    def __index__(self):
        if self.ndim == 0:
            return self._scalar().__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')
    def __complex__(self): return complex(self._scalar())

    def __repr__(self):
        return 'SymArr%s%s' % (self.lens, self.a.tolist() if self.a.size < 6 else '...')

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, order=None):
        return SymArr(self.a.copy(), self.dims, self.kind).wired(self.wire)

    def fill(self, v):
        self[...] = v

    def astype(self, dtype, copy=True, **kw):
        k = kind_of_dtype(dtype)
        return SymArr(map_obj(lambda x: cast(x, k), self.a), self.dims, k).wired(dtype)

    def view(self, *a):
        return self

    def conjugate(self):
        return self.map(lambda x: x.conjugate() if isinstance(x, CTerm) else x)
    conj = conjugate

    def map(self, f, kind=None):
        a = map_obj(f, self.a)
        return SymArr(a, self.dims, kind or akind(a, self.kind))

    @property
    def real(self):
        if self.kind != 'C':
            return self
        return PartView(map_obj(lambda x: x.re, self.a), self, 0)

    @real.setter
    def real(self, v):
        v = broadcast_to(asarr(v), self.lens)
        self._touch()
        self.a[...] = zipmap(lambda x, y: CTerm(cast(y, 'R'), x.im), self.a, v.a)

    @property
    def imag(self):
        if self.kind != 'C':
            return self.map(lambda x: T.ZERO)
        return PartView(map_obj(lambda x: x.im, self.a), self, 1)

    @imag.setter
    def imag(self, v):
        v = broadcast_to(asarr(v), self.lens)
        self._touch()
        self.a[...] = zipmap(lambda x, y: CTerm(x.re, cast(y, 'R')), self.a, v.a)

    # ---------------------------------------------------------------- layout
    def relayout(self, layout, writable=False):
        """layout: list of old axis numbers or None for a new axis"""
        n_old, n_new = self.ndim, len(layout)
        kept = [ax for ax in layout if ax is not None]
        assert sorted(kept) == sorted(set(kept))
        for ax in range(n_old):
            if ax not in kept:
                assert self.dims[ax] is None and self.a.shape[ax] == 1
        m = {}
        for newpos, ax in enumerate(layout):
            if ax is not None and self.dims[ax] is not None:
                p, q = n_old - 1 - ax, n_new - 1 - newpos
                m[IX[p]] = IX[q]
        drop = [ax for ax in range(n_old) if ax not in kept]
        a = self.a
        order = kept + drop
        a = a.transpose(order)
        a = a.reshape(a.shape[:len(kept)]) if drop else a
        idx = tuple(slice(None) if ax is not None else None for ax in layout)
        a = a[idx] if idx else a
        changed = any(k is not v for k, v in m.items())
        a = rename(a, m)
        dims = [self.dims[ax] if ax is not None else None for ax in layout]
        return SymArr(a, dims, self.kind, writable=(self.writable and not changed))

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        if not axes:
            axes = tuple(reversed(range(self.ndim)))
        return self.relayout([int(x) % self.ndim for x in axes])

    def swapaxes(self, i, j):
        o = list(range(self.ndim))
        o[i], o[j] = o[j], o[i]
        return self.relayout(o)

    def squeeze(self, axis=None):
        lay = [ax for ax in range(self.ndim)
               if not (self.dims[ax] is None and self.a.shape[ax] == 1 and
                       (axis is None or ax == int(axis) % self.ndim))]
        return self.relayout(lay)

    def ravel(self, *a):
        return self.flatten()

    def flatten(self, order='C'):
        if order in ('F', 'A') and self.ndim > 1 and order == 'F':
            return self.T.flatten()
        if self.ndim == 1:
            return self.copy()
        r = self.copy()
        if r.ndim == 0:
            return r.relayout([None]).copy()
        while r.ndim > 1:
            r = r._merge_last()
        return r

    def _merge_last(self):
        """merge the last two axes"""
        n = self.ndim
        d1, d0 = self.lens[-2], self.lens[-1]
        return self._merge(n - 2)

    def _merge(self, ax):
        n = self.ndim
        l1, l0 = self.lens[ax], self.lens[ax + 1]
        p = n - 1 - (ax + 1)      # right position of the second axis
        dims = list(self.dims)
        if not isinstance(l1, Dim) and not isinstance(l0, Dim):
            a = self.a.reshape(self.a.shape[:ax] + (l1 * l0,) + self.a.shape[ax + 2:])
            # the axes left of ax move one position to the right
            m = {IX[q]: IX[q - 1] for q in range(p + 2, n)}
            a = rename(a, m)
            return SymArr(a, dims[:ax] + [None] + dims[ax + 2:], self.kind)
        nd = proddim(l1, l0)
        m = {IX[q]: IX[q - 1] for q in range(p + 2, n)}
        if l1 == 1:
            pass
        elif l0 == 1:
            m[IX[p + 1]] = IX[p]
        elif isinstance(l1, Dim) and isinstance(l0, Dim):
            m[IX[p + 1]] = T.app(('unpack0', nd.name), IX[p], kind='I')
            m[IX[p]] = T.app(('unpack1', nd.name), IX[p], kind='I')
        elif isinstance(l1, Dim):
            # n rows of a fixed number of elements
            r = T.quorem('rem', l0, IX[p])
            m[IX[p + 1]] = T.quorem('quo', l0, IX[p])
            a = rename(self.a, m)
            cut = lambda j: a[(slice(None),) * (ax + 1) + (slice(j, j + 1),)]
            out = cut(0)
            for j in range(1, l0):
                out = zipmap(lambda x, y: T.ite(T.eq(r, T.const(j)), x, y), cut(j), out)
            a = out.reshape(out.shape[:ax] + (1,) + out.shape[ax + 2:])
            return SymArr(a, dims[:ax] + [nd] + dims[ax + 2:], self.kind)
        else:
            raise Unsupported('flattening a mixed symbolic/concrete pair of axes')
        a = self.a.reshape(self.a.shape[:ax] + (self.a.shape[ax] * self.a.shape[ax + 1],) + self.a.shape[ax + 2:])
        a = rename(a, m)
        return SymArr(a, dims[:ax] + [nd if isinstance(nd, Dim) else None] + dims[ax + 2:], self.kind)

    def _split(self, ax, l1, l0):
        """split axis ax of length l1*l0"""
        n = self.ndim
        p = n - 1 - ax
        d = self.lens[ax]
        dims = list(self.dims)
        m = {IX[q]: IX[q + 1] for q in range(p + 1, n)}
        if not isinstance(d, Dim):
            a = self.a.reshape(self.a.shape[:ax] + (l1, l0) + self.a.shape[ax + 1:])
            return SymArr(rename(a, m), dims[:ax] + [None, None] + dims[ax + 1:], self.kind)
        if l1 == 1 or l0 == 1:
            if l0 == 1:
                m[IX[p]] = IX[p + 1]
            a = self.a.reshape(self.a.shape[:ax] + (1, 1) + self.a.shape[ax + 1:])
            return SymArr(rename(a, m), dims[:ax] + [d if l0 == 1 else None, d if l0 != 1 else None] + dims[ax + 1:], self.kind)
        if d.factors is None or tuple(d.factors) != (l1, l0):
            if d.factors is not None and set(d.factors) == {l1, l0} or True:
                # a legal numpy reshape with another meaning of the flat index
                nd = proddim(l1, l0)
                from . import nf
                if not nf.is_zero(T.sub(dimterm_t(nd), d.term)):
                    raise ValueError('cannot reshape array of size %s into shape (%s,%s)' % (d, l1, l0))
                if not (isinstance(l1, Dim) and isinstance(l0, Dim)):
                    raise Unsupported('reshape into a mixed pair')
                # re-packing with a different row length: opaque flat index
                m[IX[p]] = T.app('flatindex', l0.term, IX[p + 1], IX[p], kind='I')
                a = self.a.reshape(self.a.shape[:ax] + (1, 1) + self.a.shape[ax + 1:])
                return SymArr(rename(a, m), dims[:ax] + [l1, l0] + dims[ax + 1:], self.kind)
        m[IX[p]] = T.app(('pack', d.name), IX[p + 1], IX[p], kind='I')
        a = self.a.reshape(self.a.shape[:ax] + (1, 1) + self.a.shape[ax + 1:])
        return SymArr(rename(a, m), dims[:ax] + [l1 if isinstance(l1, Dim) else None,
                                                l0 if isinstance(l0, Dim) else None] + dims[ax + 1:], self.kind)

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if not any(d is not None for d in self.dims) and all(not isinstance(s, Term) or s.op == 'const' for s in shape):
            return SymArr(self.a.reshape(tuple(int(s) for s in shape)).copy(), (None,) * len(shape), self.kind)
        want = []
        for s in shape:
            if isinstance(s, (int, np.integer)) and int(s) == -1:
                want.append(-1)
            else:
                want.append(dimof(s))
        if -1 in want:
            if len(want) == 1:
                return self.flatten()
            known = [w for w in want if w != -1]
            have = list(self.lens)
            for w in known:
                if w == 1:
                    continue
                if w in have:
                    have.remove(w)
                else:
                    raise Unsupported('reshape with -1')
            r = 1
            for h in have:
                r = proddim(r, h)
            want[want.index(-1)] = r
        if tuple(want) == self.lens:
            return self.copy()
        # only length-1 axes come and go
        if [w for w in want if w != 1] == [l for l in self.lens if l != 1]:
            src = [ax for ax, l in enumerate(self.lens) if l != 1]
            it = iter(src)
            lay = [next(it) if w != 1 else None for w in want]
            return self.relayout(lay).copy()
        # general: flatten then split from the left
        r = self.flatten()
        lens = want
        while r.ndim < len(lens):
            k = r.ndim - 1
            rest = 1
            for w in lens[k + 1:]:
                rest = proddim(rest, w)
            r = r._split(k, lens[k], rest)
        return r

    # -------------------------------------------------------------- indexing
    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, v):
        setitem(self, idx, v)

    # ------------------------------------------------------------- operators
    def __add__(self, o): return ew2(T_add, self, o)
    def __radd__(self, o): return ew2(T_add, o, self)
    def __sub__(self, o): return ew2(T_sub, self, o)
    def __rsub__(self, o): return ew2(T_sub, o, self)
    def __mul__(self, o): return ew2(T_mul, self, o)
    def __rmul__(self, o): return ew2(T_mul, o, self)
    def __truediv__(self, o): return ew2(T_div, self, o)
    def __rtruediv__(self, o): return ew2(T_div, o, self)
    def __floordiv__(self, o): return ew2(lambda x, y: x // y, self, o)
    def __rfloordiv__(self, o): return ew2(lambda x, y: x // y, o, self)
    def __mod__(self, o): return ew2(lambda x, y: x % y, self, o)
    def __rmod__(self, o): return ew2(lambda x, y: x % y, o, self)
    def __pow__(self, o): return ew2(lambda x, y: x ** y, self, o)
    def __rpow__(self, o): return ew2(lambda x, y: x ** y, o, self)
    def __neg__(self): return self.map(lambda x: -x)
    def __pos__(self): return self.copy()
    def __abs__(self): return self.map(abs)
    def __invert__(self): return self.map(lambda x: ~x)
    def __and__(self, o): return ew2(T.land, self, o)
    __rand__ = __and__
    def __or__(self, o): return ew2(T.lor, self, o)
    __ror__ = __or__
    def __xor__(self, o): return ew2(T.lxor, self, o)
    __rxor__ = __xor__
    def __lt__(self, o): return ew2(el_lt, self, o)
    def __le__(self, o): return ew2(el_le, self, o)
    def __gt__(self, o): return ew2(el_gt, self, o)
    def __ge__(self, o): return ew2(el_ge, self, o)
    def __eq__(self, o):
        if o is None:
            return False
        return ew2(el_eq, self, o)
    def __ne__(self, o):
        if o is None:
            return True
        return ew2(lambda x, y: T.not_(el_eq(x, y)), self, o)
    __hash__ = None

    def _inplace(self, f, o):
        r = ew2(f, self, o)
        if isinstance(r, SymMA) and not self.is_ma:
            r = r.data
        if r.lens != self.lens:
            raise ValueError('non-broadcastable output operand')
        if _KORD[r.kind] > _KORD[self.kind] and self.kind in 'IB' and r.kind in 'RC':
            raise TypeError('Cannot cast ufunc output from %s to %s' % (r.kind, self.kind))
        if r.kind == 'C' and self.kind == 'R':
            raise TypeError('Cannot cast ufunc output from complex to float')
        self._touch()
        k = self.kind
        self.a[...] = map_obj(lambda x: cast(x, k), r.a)
        return self

    def __iadd__(self, o): return self._inplace(T_add, o)
    def __isub__(self, o): return self._inplace(T_sub, o)
    def __imul__(self, o): return self._inplace(T_mul, o)
    def __itruediv__(self, o): return self._inplace(T_div, o)
    def __imod__(self, o): return self._inplace(lambda x, y: x % y, o)
    def __ipow__(self, o): return self._inplace(lambda x, y: x ** y, o)
    def __ior__(self, o): return self._inplace(T.lor, o)
    def __iand__(self, o): return self._inplace(T.land, o)

    def __matmul__(self, o):
        return matmul(self, asarr(o))

    def __rmatmul__(self, o):
        return matmul(asarr(o), self)

    # ------------------------------------------------------------ reductions
    def sum(self, axis=None, keepdims=False, **kw):
        return reduce_(self, 'sum', axis, keepdims)

    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self.shape[axis]
        return reduce_(self, 'sum', axis, False) / n

    def any(self, axis=None, **kw):
        return reduce_(self, 'any', axis, False)

    def all(self, axis=None, **kw):
        return reduce_(self, 'all', axis, False)

    def min(self, axis=None, **kw):
        return reduce_(self, 'min', axis, False)

    def max(self, axis=None, **kw):
        return reduce_(self, 'max', axis, False)

    def dot(self, o):
        return dot(self, asarr(o))

    def round(self, decimals=0):
        if decimals == 0:
            return self.map(T.rint)
        raise Unsupported('round')

    def repeat(self, n, axis=None):
        return repeat(self, n, axis)

    def nonzero(self):
        return nonzero(self)

    def argmin(self, *a):
        return argmin(self)

    def filled(self, v=None):
        return self.copy()


def dimterm_t(d):
    return d.term if isinstance(d, Dim) else T.const(d)


def T_add(x, y): return x + y
def T_sub(x, y):
    return x - y
def T_mul(x, y): return x * y
def T_div(x, y): return x / y


def _tofloat(x):
    if isinstance(x, CTerm):
        return complex(x)
    if isinstance(x, Term) and x.kind == 'B':
        return bool(x)
    if isinstance(x, Term):
        return float(x)
    return x


def _toval(x):
    if isinstance(x, CTerm):
        return complex(x)
    if isinstance(x, Term):
        if x is T.TRUE:
            return True
        if x is T.FALSE:
            return False
        if x is T.NAN:
            return float('nan')
        if x.kind == 'B':
            raise Unsupported('a symbolic boolean where a concrete one is needed')
        return int(x) if x.kind == 'I' else float(x)
    return x


def el_eq(x, y):
    if isinstance(x, str) or isinstance(y, str):
        return T.TRUE if (isinstance(x, str) and isinstance(y, str) and x == y) else T.FALSE
    r = (x == y)
    if r is True or r is False:
        return T.TRUE if r else T.FALSE
    return numbers(r, x, y)


def nan_of(x):
    from . import npproxy
    if not npproxy.NANABLE and not isinstance(x, float):
        return T.FALSE
    if isinstance(x, CTerm):
        return T.lor(nan_of(x.re), nan_of(x.im))
    if isinstance(x, Term):
        return npproxy.isnan_term(x)
    return T.TRUE if isinstance(x, float) and x != x else T.FALSE


def numbers(r, x, y):
    """a comparison holds of numbers only"""
    for z in (x, y):
        n = nan_of(z)
        if n is not T.FALSE:
            r = T.land(r, T.not_(n))
    return r


def el_lt(x, y): return numbers(T.lt(x, y), x, y)
def el_le(x, y): return numbers(T.le(x, y), x, y)
def el_gt(x, y): return numbers(T.gt(x, y), x, y)
def el_ge(x, y): return numbers(T.ge(x, y), x, y)


def akind(a, default='R'):
    ks = [kindof(x) for x in a.ravel()]
    if not ks:
        return default
    return maxkind(ks)


def unify_kind(a, kind):
    return map_obj(lambda x: cast(x, kind), a)


def asarr(x):
    """anything array-like to SymArr"""
    if isinstance(x, SymArr):
        return x
    if isinstance(x, (Term, CTerm)):
        return SymArr(_obj_full((), x), (), kindof(x))
    if isinstance(x, np.ma.MaskedArray):
        d = asarr(np.asarray(x.data))
        m = asarr(np.ma.getmaskarray(x))
        return SymMA(d.a, d.dims, d.kind, m, x.fill_value)
    if isinstance(x, np.ndarray):
        if x.dtype == object and any(isinstance(e, SymArr) for e in x.ravel()):
            return stack_nested(x.tolist())
        k = kind_of_dtype(x.dtype)
        if k == 'O':
            a = x.astype(object) if x.dtype.kind != 'M' else x.astype(object)
            if any(isinstance(e, (Term, CTerm)) for e in a.ravel()):
                a = map_obj(lift, a)
                return SymArr(a, (None,) * a.ndim, akind(a))
            return SymArr(a, (None,) * a.ndim, 'O')
        if x.dtype == np.float32:
            f = lambda e: T.const(Fraction(float(e)))
        else:
            f = lift
        out = _obj(x.shape)
        fo = out.ravel()
        xr = x.ravel()
        for i in range(xr.size):
            fo[i] = f(xr[i])
        out = fo.reshape(x.shape)
        return SymArr(out, (None,) * x.ndim, k)
    if isinstance(x, (SymSeq, SegList)):
        return x.as_array()
    if isinstance(x, (list, tuple, range)):
        if len(x) == 0:
            return SymArr(_obj((0,)), (None,), 'R')
        return stack_nested(list(x))
    if isinstance(x, str):
        return SymArr(_obj_full((), x), (), 'O')
    if x is None:
        return SymArr(_obj_full((), None), (), 'O')
    t = lift_or_none(x)
    if t is not None:
        return SymArr(_obj_full((), t), (), kindof(t))
    return SymArr(_obj_full((), x), (), 'O')


def stack_nested(lst):
    parts = [asarr(v) for v in lst]
    return stack(parts, 0)


def stack(parts, axis=0):
    lens = None
    for p in parts:
        if lens is None:
            lens = p.lens
        elif lens != p.lens:
            raise ValueError('setting an array element with a sequence: inhomogeneous shape %s %s' % (lens, p.lens))
    k = maxkind([p.kind for p in parts])
    nd = parts[0].ndim + 1
    axis = axis % nd
    ps = []
    for p in parts:
        lay = list(range(p.ndim))
        lay.insert(axis, None)
        ps.append(p.relayout(lay))
    a = np.concatenate([p.a for p in ps], axis=axis)
    if k != 'O':
        a = unify_kind(a, k)
    ma = any(isinstance(p, SymMA) for p in parts)
    return SymArr(a, ps[0].dims, k)


def concatenate(parts, axis=0):
    parts = [asarr(p) for p in parts]
    k = maxkind([p.kind for p in parts])
    nd = parts[0].ndim
    axis = axis % nd
    dims = list(parts[0].dims)
    for p in parts:
        if p.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for ax in range(nd):
            if ax == axis:
                if p.dims[ax] is not None and len(parts) == 1:
                    return parts[0].copy()
            elif p.lens[ax] != parts[0].lens[ax]:
                raise ValueError('all the input array dimensions must match')
    if any(p.dims[axis] is not None for p in parts):
        return _joined(parts, axis, k)
    a = np.concatenate([p.a for p in parts], axis=axis)
    if k != 'O':
        a = unify_kind(a, k)
    return SymArr(a, dims, k)


def _joined(parts, axis, k):
    """parts one after another along an axis of symbolic length: each element is that
    of the part it is in"""
    nd = parts[0].ndim
    i = IX[nd - 1 - axis]
    sizes = [T.lift(dimterm(p.lens[axis])) for p in parts]
    total = dimof(functools.reduce(T.add, sizes))
    if not isinstance(total, Dim):
        raise Unsupported('concatenation along a symbolic axis')
    out = None
    starts = [T.IZERO]
    for n in sizes[:-1]:
        starts.append(starts[-1] + n)
    for p, s in reversed(list(zip(parts, starts))):
        if p.dims[axis] is None:
            if p.a.shape[axis] != 1:
                raise Unsupported('concatenation along a symbolic axis')
            el = p.a
        else:
            el = rename(p.a, {i: i - s})
        if out is None:
            out = el
        else:
            out = zipmap(lambda u, v: T.ite(T.lt(i, bound), u, v), el, out)
        bound = s
    if k != 'O':
        out = unify_kind(out, k)
    dims = list(parts[0].dims)
    dims[axis] = total
    return SymArr(out, dims, k)


# -------------------------------------------------------------- broadcasting
def broadcast_lens(*lens):
    nd = max(len(l) for l in lens)
    out = []
    for p in range(nd):
        cur = 1
        for l in lens:
            if len(l) > p:
                v = l[len(l) - 1 - p]
                if v == 1:
                    continue
                if cur == 1:
                    cur = v
                elif cur is v or (not isinstance(cur, Dim) and not isinstance(v, Dim) and cur == v):
                    continue
                elif getattr(cur, 'derived', False) or getattr(v, 'derived', False):
                    from . import engine
                    a, b = T.lift(dimterm(cur)), T.lift(dimterm(v))
                    if engine.decide(T.eq(a, b)):
                        continue
                    if any(isinstance(u, Dim) and getattr(u, 'derived', False) and engine.decide(T.eq(u.term, T.IONE)) for u in (cur, v)):
                        raise Unsupported('broadcast of %s and %s' % (cur, v))
                    raise ValueError('operands could not be broadcast together with shapes %s' % (lens,))
                else:
                    raise ValueError('operands could not be broadcast together with shapes %s' % (lens,))
        out.append(cur)
    return tuple(reversed(out))


def phys(lens):
    return tuple(1 if isinstance(l, Dim) else l for l in lens)


def dims_of(lens):
    return tuple(l if isinstance(l, Dim) else None for l in lens)


def broadcast_to(x, lens):
    lens = tuple(dimof(l) for l in lens)
    l2 = broadcast_lens(x.lens, lens)
    if l2 != tuple(lens):
        raise ValueError('could not broadcast input array from shape %s into shape %s' % (x.lens, lens))
    a = np.broadcast_to(x.a, phys(lens))
    return SymArr(np.array(a, dtype=object, copy=True) if True else a, dims_of(lens), x.kind)


def zipmap(f, a, b):
    a, b = np.broadcast_arrays(a, b)
    out = _obj(a.shape)
    if a.ndim == 0:
        out[()] = f(a[()], b[()])
        return out
    fa, fb = a.ravel(), b.ravel()
    fo = out.ravel()
    for i in range(fa.size):
        fo[i] = f(fa[i], fb[i])
    return fo.reshape(a.shape)


def ew2(f, x, y):
    """elementwise binary operation with broadcasting"""
    if isinstance(x, Comp) or isinstance(y, Comp):
        return Comp.op2(f, x, y)
    if isinstance(x, SymMA) or isinstance(y, SymMA):
        dx = x.data if isinstance(x, SymMA) else x
        dy = y.data if isinstance(y, SymMA) else y
        d = ew2(f, dx, dy)
        m = None
        for z in (x, y):
            if isinstance(z, SymMA) and z.mask is not nomask:
                m = z.mask if m is None else ew2(T.lor, m, z.mask)
        if m is None:
            mask = nomask
        else:
            mask = broadcast_to(asarr(m), asarr(d).lens)
        d = asarr(d)
        fv = x.fill_value if isinstance(x, SymMA) else y.fill_value
        return SymMA(d.a, d.dims, d.kind, mask, fv)
    if x is masked or y is masked:
        return masked
    x, y = asarr(x), asarr(y)
    lens = broadcast_lens(x.lens, y.lens)
    a = zipmap(lambda u, v: _lift2(f, u, v), x.a, y.a)
    if a.ndim == 0:
        return a[()]
    return SymArr(a, dims_of(lens), akind(a, maxkind([x.kind, y.kind])))


def _lift2(f, u, v):
    if isinstance(u, (Term, CTerm)) or isinstance(v, (Term, CTerm)):
        if not isinstance(u, str) and not isinstance(v, str):
            u, v = lift(u), lift(v)
    r = f(u, v)
    if r is NotImplemented:
        raise TypeError('unsupported operand')
    if isinstance(r, (bool, np.bool_)):
        return T.TRUE if r else T.FALSE
    return r


def ew1(f, x, kind=None):
    if isinstance(x, Comp):
        return Comp(x.mask, ew1(f, x.full))
    if isinstance(x, SymMA):
        d = ew1(f, x.data)
        d = asarr(d)
        return SymMA(d.a, d.dims, d.kind, x.mask if x.mask is nomask else x.mask.copy(), x.fill_value)
    if x is masked:
        return masked
    x = asarr(x)
    a = map_obj(lambda u: f(lift(u)), x.a)
    if a.ndim == 0:
        return a[()]
    return SymArr(a, x.dims, kind or akind(a, x.kind))


def ew3(f, c, x, y):
    c, x, y = asarr(c), asarr(x), asarr(y)
    lens = broadcast_lens(c.lens, x.lens, y.lens)
    c, x, y = (broadcast_to(v, lens) for v in (c, x, y))
    out = _obj(c.a.shape)
    if out.ndim == 0:
        return f(c.a[()], x.a[()], y.a[()])
    fo = out.ravel()
    for i, (u, v, w) in enumerate(zip(c.a.ravel(), x.a.ravel(), y.a.ravel())):
        fo[i] = f(u, v, w)
    out = fo.reshape(c.a.shape)
    return SymArr(out, dims_of(lens), akind(out))


# ----------------------------------------------------------------- reductions
def reduce_(x, how, axis, keepdims):
    if isinstance(x, Comp):
        if how == 'any':
            return reduce_(ew2(T.land, x.mask, x.full), 'any', axis, keepdims)
        if how == 'all':
            return reduce_(ew2(T.lor, ~x.mask, x.full), 'all', axis, keepdims)
        if how == 'sum' and axis is None:
            sel, full = x.mask, x.full
            if isinstance(full, SymMA):
                sel, full = (x.mask if full.mask is nomask else ew2(T.land, x.mask, ~full.mask)), full.data
                if not _decided(reduce_(sel, 'any', None, False)):
                    return masked
            full = full.map(lambda e: T.b2i(e) if isinstance(e, Term) else e)
            zero = {'I': T.IZERO, 'R': T.ZERO, 'C': CTerm(T.ZERO, T.ZERO)}[full.kind]
            return reduce_(ew3(T.ite, sel, full, zero), 'sum', None, False)
        raise Unsupported('reduction of a masked selection')
    if isinstance(x, SymMA):
        if how == 'any':
            d = x.data if x.mask is nomask else ew2(T.land, x.data, ~x.mask)
            return reduce_(asarr(d), how, axis, keepdims)
        if x.mask is nomask or all(m is T.FALSE for m in x.mask.a.ravel()):
            return reduce_(x.data, how, axis, keepdims)
        raise Unsupported('reduction %s of a masked array' % how)
    x = asarr(x)
    if axis is None:
        axes = list(range(x.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = sorted(int(a) % x.ndim for a in axis)
    else:
        axes = [int(axis) % x.ndim]
    r = x
    for ax in reversed(axes):
        r = _reduce1(r, how, ax, keepdims)
    if r.ndim == 0:
        return r.a[()]
    return r


def _reduce1(x, how, ax, keepdims):
    n = x.ndim
    p = n - 1 - ax
    if x.dims[ax] is not None:
        d = x.dims[ax]
        if how in ('min', 'max') and n == 1:
            for name, sd in SORTED.items():
                if sd is d and x.a[0] is T.app(name, IX[0]):
                    return SymArr(_obj_full((1,), T.app(name, T.IZERO if how == 'min' else T.sub(d.term, T.IONE))), (None,), 'R') if keepdims else \
                        SymArr(_obj_full((), T.app(name, T.IZERO if how == 'min' else T.sub(d.term, T.IONE))), (), 'R')
        b = T.bindvar(d, x.a.ravel())
        el = rename(x.a, {IX[p]: b})

        def red(e):
            if how == 'sum':
                return T.bsum(d, b, e)
            if how == 'any':
                return T.bexists(d, b, T.tobool(e))
            if how == 'all':
                return T.not_(T.bexists(d, b, T.not_(T.tobool(e))))
            if how in ('min', 'max'):
                return bextremum(how, d, b, e)
            raise Unsupported(how)
        a = map_obj(red, el)
        if not keepdims:
            a = np.squeeze(a, axis=ax)
    else:
        fs = {'sum': lambda u, v: u + v, 'any': lambda u, v: T.lor(T.tobool(u), T.tobool(v)),
              'all': lambda u, v: T.land(T.tobool(u), T.tobool(v)),
              'min': T.minimum, 'max': T.maximum, 'prod': lambda u, v: u * v}[how]
        parts = [np.take(x.a, i, axis=ax) for i in range(x.a.shape[ax])]
        if not parts:
            e = {'sum': T.ZERO, 'any': T.FALSE, 'all': T.TRUE, 'prod': T.ONE}[how]
            a = _obj_full(x.a.shape[:ax] + x.a.shape[ax + 1:], e)
        else:
            a = parts[0] if isinstance(parts[0], np.ndarray) else _obj_full((), parts[0])
            if how in ('any', 'all'):
                a = map_obj(T.tobool, a)
            if how == 'sum' and x.kind == 'B':
                a = map_obj(T.b2i, a)
            for q in parts[1:]:
                q = q if isinstance(q, np.ndarray) else _obj_full((), q)
                a = zipmap(fs, a, q)
        if keepdims:
            a = np.expand_dims(a, ax)
    dims = list(x.dims)
    if keepdims:
        dims[ax] = None
    else:
        del dims[ax]
        a = rename(a, {IX[q]: IX[q - 1] for q in range(p + 1, n)})
    return SymArr(a, dims, akind(a, x.kind))


def linear_in(e, k):
    """(a, c) with e = a*k + c, a and c free of k; None where e is not seen to be so"""
    if e is k:
        return T.IONE, T.IZERO
    if k.id not in T.freevars(e):
        return T.IZERO, e
    if e.op == 'add':
        parts = [linear_in(x, k) for x in e.args]
        if any(x is None for x in parts):
            return None
        a, c = parts[0]
        for p, q in parts[1:]:
            a, c = a + p, c + q
        return a, c
    if e.op == 'mul':
        a, c = T.IZERO, T.IONE
        for x in e.args:
            r = linear_in(x, k)
            if r is None:
                return None
            p, q = r
            if p is not T.IZERO and a is not T.IZERO:
                return None
            a, c = (a * q if a is not T.IZERO else c * p), c * q
        return a, c
    return None


def bextremum(how, d, b, e):
    """min/max over a symbolic index: an opaque value keyed by the body"""
    if b.id not in T.freevars(e):
        return e
    ln = linear_in(e, b)
    if ln is not None:
        # a line over the index: the smallest and largest values are at its ends
        rise, first = ln
        last = first + rise * T.sub(d.term, T.IONE)
        return T.ite(T.ge(rise, T.ZERO), *((first, last) if how == 'min' else (last, first)))
    can = T.var('%idx:' + str(d), 'I')
    body = T.subst(e, {b: can})
    return Term(how + 'over', (d, can, body), e.kind)


def extremal(how, d, b, e):
    """argmin, argmax, first or last index of a condition over a symbolic index"""
    can = T.var('%idx:' + str(d), 'I')
    return Term('argover', (how, d, can, T.subst(e, {b: can})), 'I')


def extremal_facts(r):
    how, d, can, body = r.args
    out = [T.le(T.IZERO, r), T.lt(r, d.term)]
    if how in ('first', 'last'):
        # taken only where an index exists (MaskIdx.__getitem__)
        other = Term('argover', ({'first': 'last', 'last': 'first'}[how], d, can, body), 'I')
        out.append(T.le(*((r, other) if how == 'first' else (other, r))))
        for i in (r, other):
            out += [T.le(T.IZERO, i), T.lt(i, d.term), T.subst(body, {can: i})]
    return out


def argmin(x, how='argmin'):
    x = asarr(x)
    if x.ndim != 1 or x.dims[0] is None:
        raise Unsupported('argmin')
    b = T.bindvar(x.dims[0], x.a.ravel())
    return extremal(how, x.dims[0], b, T.subst(x.a[0], {IX[0]: b}))


# ------------------------------------------------------------------- masks
class SliceView(SymArr):
    """a slice of a symbolic axis; x[i:j] += y reaches the array"""

    def __init__(self, r, parent, idx):
        SymArr.__init__(self, r.a, r.dims, r.kind, writable=False)
        self.parent, self.idx = parent, idx

    def _inplace(self, f, o):
        new = SymArr(self.a.copy(), self.dims, self.kind)
        new._inplace(f, o)
        setitem(self.parent, self.idx, new)
        return SliceView(new, self.parent, self.idx)

    def __setitem__(self, idx, v):
        new = SymArr(self.a.copy(), self.dims, self.kind)
        setitem(new, idx, v)
        setitem(self.parent, self.idx, new)
        self.a[...] = new.a


class PartView(SymArr):
    """real or imaginary part of a complex array; assignments reach the array"""

    def __init__(self, a, parent, part):
        SymArr.__init__(self, a, parent.dims, 'R', writable=True)
        self.parent, self.part = parent, part

    def _back(self):
        y = self.a
        if self.part:
            self.parent.imag = SymArr(y, self.dims, 'R')
        else:
            self.parent.real = SymArr(y, self.dims, 'R')

    def _touch(self):
        if not self.parent.writable:
            raise Unsupported('write through a re-indexed view')

    def __setitem__(self, idx, v):
        setitem(self, idx, v)
        self._back()

    def _inplace(self, *a):
        r = SymArr._inplace(self, *a)
        self._back()
        return r


class Comp:
    """x[mask]: the selection of a boolean mask, kept as mask + full values"""
    __array_ufunc__ = None
    __array_priority__ = 2000.0

    def __init__(self, mask, full):
        self.mask = mask
        self.full = full

    @staticmethod
    def op2(f, x, y):
        m = x.mask if isinstance(x, Comp) else y.mask
        for z in (x, y):
            if isinstance(z, Comp) and not same_mask(z.mask, m):
                raise Unsupported('operation between selections of different masks')
            if isinstance(z, SymArr) and z.ndim > 0 and not (z.ndim == 1 and z.lens == (1,)):
                raise Unsupported('operation between a selection and an array')
        return Comp(m, ew2(f, x.full if isinstance(x, Comp) else x, y.full if isinstance(y, Comp) else y))

    def __add__(self, o): return Comp.op2(T_add, self, o)
    def __radd__(self, o): return Comp.op2(T_add, o, self)
    def __sub__(self, o): return Comp.op2(T_sub, self, o)
    def __rsub__(self, o): return Comp.op2(T_sub, o, self)
    def __mul__(self, o): return Comp.op2(T_mul, self, o)
    def __rmul__(self, o): return Comp.op2(T_mul, o, self)
    def __truediv__(self, o): return Comp.op2(T_div, self, o)
    def __rtruediv__(self, o): return Comp.op2(T_div, o, self)
    def __pow__(self, o): return Comp.op2(lambda a, b: a ** b, self, o)
    def __mod__(self, o): return Comp.op2(lambda a, b: a % b, self, o)
    def __neg__(self): return Comp(self.mask, -self.full)
    def __matmul__(self, o): return dot(self, o)
    def dot(self, o): return dot(self, o)
    def __lt__(self, o): return Comp.op2(T.lt, self, o)
    def __gt__(self, o): return Comp.op2(T.gt, self, o)
    def __le__(self, o): return Comp.op2(T.le, self, o)
    def __ge__(self, o): return Comp.op2(T.ge, self, o)
    def __iadd__(self, o): return self + o
    def __isub__(self, o): return self - o
    def __imul__(self, o): return self * o
    def __itruediv__(self, o): return self / o

    @property
    def ndim(self):
        return 1

    @property
    def kind(self):
        return self.full.kind

    @property
    def real(self):
        return Comp(self.mask, self.full.real)

    @property
    def imag(self):
        return Comp(self.mask, self.full.imag)

    @property
    def data(self):
        return Comp(self.mask, self.full.data)

    def copy(self):
        return self

    def __getitem__(self, i):
        if isinstance(i, slice) and i == slice(None):
            return self
        f = getattr(i, 'gather', None)
        if f is not None:
            return f(self)
        raise Unsupported('index of a selection')

    def symlen(self):
        return _count(self.mask)

    @property
    def size(self):
        return self.symlen()

    @property
    def shape(self):
        return (self.symlen(),)

    def sum(self, axis=None, **kw):
        return reduce_(self, 'sum', None if axis in (0, -1) else axis, False)

    def any(self, axis=None, **kw):
        return reduce_(self, 'any', axis, False)

    def all(self, axis=None, **kw):
        return reduce_(self, 'all', axis, False)

    def mean(self, axis=None, **kw):
        if isinstance(self.full, SymMA):
            raise Unsupported('mean of a masked selection')
        return self.sum(axis) / self.symlen()

    def __getattr__(self, name):
        if not name.startswith('_') and hasattr(np.ma.MaskedArray, name):
            raise Unsupported('selection.' + name)
        raise AttributeError(name)


def _count(mask):
    return asarr(reduce_(mask.map(T.b2i), 'sum', None, False)).item()


def _decided(c):
    from . import engine
    return engine.decide(T.tobool(lift(c) if not isinstance(c, SymArr) else c.item()))


class CompCols:
    """columns that are selections of the same mask"""

    def __init__(self, cols):
        self.cols = list(cols)
        for c in self.cols:
            if not isinstance(c, Comp) or not same_mask(c.mask, self.cols[0].mask):
                raise Unsupported('columns of different selections')


class MaskIdx:
    """the result of np.nonzero(mask): one handle per axis"""
    __array_ufunc__ = None

    def __init__(self, mask, axis=0):
        self.mask = mask
        self.axis = axis

    def symlen(self):
        return _count(self.mask)

    @property
    def size(self):
        return _count(self.mask)

    @property
    def shape(self):
        return (_count(self.mask),)

    def __len__(self):
        raise Unsupported('len of a symbolic selection')

    def __getitem__(self, i):
        """first and last selected index"""
        m = self.mask
        if i not in (0, -1) or m.ndim != 1 or m.dims[0] is None:
            raise Unsupported('element of a symbolic selection')
        d = m.dims[0]
        b = T.bindvar(d, m.a.ravel())
        e = T.tobool(T.subst(m.a[0], {IX[0]: b}))
        if not _decided(T.bexists(d, b, e)):
            raise IndexError('index %d is out of bounds for axis 0 with size 0' % i)
        return extremal('first' if i == 0 else 'last', d, b, e)

    def min(self):
        return self[0]

    def max(self):
        return self[-1]


def same_mask(a, b):
    if a is b:
        return True
    if a.lens != b.lens:
        return False
    return all(x is y for x, y in zip(a.a.ravel(), b.a.ravel()))


def nonzero(x):
    x = asarr(x)
    if isinstance(x, SymMA):
        x = ew2(T.land, x.data.map(T.tobool), ~x.mask) if x.mask is not nomask else x.data
        x = asarr(x)
    if x.is_const():
        return tuple(asarr(v) for v in np.nonzero(x.concrete()))
    m = x.map(T.tobool)
    b = bracket_of(m)
    if b is not None:
        return (b,)
    return tuple(MaskIdx(m, i) for i in range(x.ndim))


SORTED = {}     # name -> Dim: strictly increasing arrays of the contract


def bracket(name, v):
    """the index b, 0 <= b <= n - 2, with (b = 0 or X(b) <= v) and
    (b = n - 2 or v < X(b + 1)) of a strictly increasing array X: the greatest
    b of 0 .. n - 2 with b = 0 or X(b) <= v has both properties, and any
    other b contradicts the order"""
    return T.app(('bracket', name), T.toreal(lift(v)), kind='I')


def bracket_facts(b):
    name, v = b.args[0][1], b.args[1]
    n = SORTED[name].term
    X = lambda j: T.app(name, j)
    last, end, nxt = T.sub(n, T.const(2)), T.sub(n, T.IONE), T.add(b, T.IONE)
    return [T.le(T.IZERO, b), T.le(b, last), T.lor(T.eq(b, T.IZERO), T.le(X(b), v)), T.lor(T.eq(b, last), T.lt(v, X(nxt))),
            T.implies(T.le(X(T.IZERO), v), T.le(X(b), v)), T.implies(T.lt(v, X(end)), T.lt(v, X(nxt))),
            T.implies(T.le(v, X(end)), T.le(v, X(nxt))), T.lt(X(b), X(nxt)), T.le(X(T.IZERO), X(b)), T.le(X(nxt), X(end))]


def bracket_of(m):
    """np.nonzero((X[:-1] <= v) & (X[1:] > v)) of a strictly increasing X"""
    from . import engine
    if m.ndim != 1 or m.dims[0] is None or not SORTED:
        return None
    e = m.a[0]
    if e.op != 'and' or len(e.args) != 2:
        return None
    j = IX[0]
    for p, q in (e.args, e.args[::-1]):
        # not (v < X(j)) and v < X(j + 1), in any of the spellings
        for name, n in SORTED.items():
            lo, hi = T.app(name, j), T.app(name, T.add(j, T.IONE))
            for v in [x for x in p.args if isinstance(x, Term)] + [x.args[0] for x in p.args if isinstance(x, Term) and x.op == 'neg']:
                if j.id in T.freevars(v) or not (p is T.le(lo, v) and q is T.lt(v, hi)):
                    continue
                if m.dims[0].term is not T.sub(n.term, T.IONE) and not _same(m.dims[0].term, T.sub(n.term, T.IONE)):
                    continue
                if not engine.decide(T.le(T.app(name, T.IZERO), v)) or not engine.decide(T.lt(v, T.app(name, T.sub(n.term, T.IONE)))):
                    return SymArr(_obj((0,)), (None,), 'I')
                return asarr([bracket(name, v)])
    return None


def _same(a, b):
    from . import nf
    return nf.is_zero(T.sub(a, b))


def searchsorted(a, v, side='left'):
    """np.searchsorted(X[1:-1], v, side='right') of a strictly increasing X"""
    a = asarr(a)
    for name, n in SORTED.items():
        if side == 'right' and a.ndim == 1 and a.a[0] is T.app(name, T.add(IX[0], T.IONE)) and _same(dimterm(a.lens[0]), T.sub(n.term, T.const(2))):
            f = lambda x: bracket(name, x)
            return asarr(v).map(f) if isinstance(v, SymArr) and v.ndim else f(lift(v) if not isinstance(v, SymArr) else v.item())
    if a.is_const() and not isinstance(v, (Term, SymArr)):
        return int(np.searchsorted(a.concrete(), v, side))
    raise Unsupported('searchsorted')


# ------------------------------------------------------------------- masked
class _NoMask:
    def __bool__(self): return False
    def copy(self): return self
    def __copy__(self): return self
    def __getitem__(self, i): return self
    def __or__(self, o): return o
    __ror__ = __or__
    def __repr__(self): return 'nomask'
    def __deepcopy__(self, m): return self


nomask = _NoMask()
masked = np.ma.masked


class SymMA(SymArr):
    is_ma = True
    __array_priority__ = 1500.0

    def __init__(self, a, dims, kind, mask=nomask, fill_value=None, writable=True):
        SymArr.__init__(self, a, dims, kind, writable)
        self._data = SymArr(a, dims, kind, writable)
        self._mask = nomask
        self._fv = fill_value
        if isinstance(mask, SymArr) and not isinstance(mask, SymMA) and mask.kind == 'B' and mask.lens == self.lens:
            self._mask = mask
        else:
            self.mask = mask

    @property
    def fill_value(self):
        if self._fv is None:
            return {'R': T.lift(1e20), 'I': T.const(999999), 'B': T.TRUE,
                    'C': CTerm(T.lift(1e20), T.ZERO), 'O': T.lift(1e20)}[self.kind]
        return lift(self._fv) if not isinstance(self._fv, SymArr) else self._fv.item()

    @fill_value.setter
    def fill_value(self, v):
        self._fv = v

    @property
    def data(self):
        return self._data

    @property
    def mask(self):
        return self._mask

    @mask.setter
    def mask(self, m):
        for w in _writes:
            w(self)
        if m is nomask or m is np.ma.nomask or (m is False):
            if m is False:
                self._mask = SymArr(_obj_full(self.a.shape, T.FALSE), self.dims, 'B')
            else:
                self._mask = nomask
            return
        m = asarr(m)
        if isinstance(m, SymMA):
            m = m.data
        m = broadcast_to(m, self.lens)
        m = m.map(T.tobool, 'B')
        if self._mask is not nomask and self._mask.lens == m.lens and self._mask.writable:
            self._mask._touch()
            self._mask.a[...] = m.a
        else:
            self._mask = m

    def getmask(self):
        if self._mask is nomask:
            return SymArr(_obj_full(self.a.shape, T.FALSE), self.dims, 'B')
        return self._mask

    def __repr__(self):
        return 'SymMA%s' % (self.lens,)

    def _wrap(self, d, m):
        return SymMA(d.a, d.dims, d.kind, m, self._fv, writable=d.writable)

    def copy(self, order=None):
        return self._wrap(SymArr.copy(self._data), self._mask.copy())

    def astype(self, dtype, **kw):
        return self._wrap(self._data.astype(dtype), self._mask.copy())

    @property
    def real(self):
        if self.kind != 'C':
            return self
        r = self._wrap(self._data.real, self._mask)
        return r

    @property
    def imag(self):
        return self._wrap(self._data.imag, self._mask)

    def map(self, f, kind=None):
        return self._wrap(self._data.map(f, kind), self._mask.copy())

    def relayout(self, layout, writable=False):
        d = self._data.relayout(layout)
        m = self._mask if self._mask is nomask else self._mask.relayout(layout)
        return self._wrap(d, m)

    def flatten(self, order='C'):
        return self._wrap(self._data.flatten(order), self._mask if self._mask is nomask else self._mask.flatten(order))

    def reshape(self, *shape, **kw):
        return self._wrap(self._data.reshape(*shape, **kw), self._mask if self._mask is nomask else self._mask.reshape(*shape, **kw))

    def filled(self, v=None):
        v = self.fill_value if v is None else lift(v)
        if self._mask is nomask:
            return self._data.copy()
        return asarr(ew3(T.ite, self._mask, SymArr(_obj_full((), cast(v, self.kind)), (), self.kind), self._data))

    def _inplace(self, f, o):
        r = ew2(f, self, o)
        if r.lens != self.lens:
            raise ValueError('non-broadcastable output operand')
        if r.kind == 'C' and self.kind == 'R':
            raise TypeError('Cannot cast ufunc output from complex to float')
        self._touch()
        k = self.kind
        self.a[...] = map_obj(lambda x: cast(x, k), r.data.a)
        if r.mask is not nomask:
            self.mask = r.mask
        return self

    def compressed(self):
        raise Unsupported('compressed')

    def __eq__(self, o):
        return ew2(el_eq, self, o)
    __hash__ = None


def getmaskarray(x):
    if isinstance(x, SymMA):
        return x.getmask()
    x = asarr(x)
    return SymArr(_obj_full(x.a.shape, T.FALSE), x.dims, 'B')


# ----------------------------------------------------------------- indexing
def _norm_index(x, idx):
    idx = list(idx)
    n = 0
    for i in idx:
        if i is None or i is Ellipsis:
            continue
        if isinstance(i, SymArr) and i.kind == 'B' and i.ndim > 0:
            n += i.ndim
        else:
            n += 1
    if not any(i is Ellipsis for i in idx):
        idx.append(Ellipsis)
    k = [i for i, v in enumerate(idx) if v is Ellipsis][0]
    fill = x.ndim - n
    if fill < 0:
        raise IndexError('too many indices for array: array is %d-dimensional, but %d were indexed' % (x.ndim, n))
    return idx[:k] + [slice(None)] * fill + idx[k + 1:]


GENERIC = []


def in_bounds(k, d, free=None):
    """obligation: the index k of an axis of length d is within bounds"""
    from . import engine
    if k.op == 'const' and 0 <= k.args[0] <= 1 and not getattr(d, 'derived', False):
        return
    free = free if free is not None else GENERIC[-1] if GENERIC else {}
    engine.side('index within bounds', T.land(T.le(T.IZERO, k), T.lt(k, d.term)),
                [c for v, n in free.items() for c in (T.le(T.IZERO, v), T.lt(v, dimterm(n)))])


def stepped(i, d):
    """step, first index and length of a slice of a symbolic axis that has a step"""
    from . import engine, nf
    if i.step is None or T.num(lift(i.step)) is None or T.num(lift(i.step)) < 2:
        return None
    st = int(T.num(lift(i.step)))
    lo = T.IZERO if i.start is None else lift(i.start)
    hi = d.term if i.stop is None else lift(i.stop)
    if T.num(lo) is None or T.num(lo) < 0:
        raise Unsupported('slice %s of a symbolic axis' % (i,))
    if hi is not d.term and not (engine.decide(T.le(hi, d.term)) and engine.decide(T.le(lo, hi))):
        raise Unsupported('slice %s of a symbolic axis' % (i,))
    n = T.sub(hi, lo)
    for m in list(Dim.table.values()):
        if any(nf.is_zero(T.sub(n, T.add(T.mul(T.const(st), m.term), T.const(-r)))) for r in range(st)):
            return st, lo, m
    raise Unsupported('length of the slice %s' % (i,))


def slice_of(i, d):
    """first index and length of a slice of a symbolic axis"""
    from . import engine

    def bound(v, default):
        if v is None:
            return default
        v = lift(v) if not isinstance(v, SymArr) else v.item()
        if v.op == 'const':
            return v if v.args[0] >= 0 else T.add(d.term, v)
        if v.kind != 'I':
            raise TypeError('slice indices must be integers')
        if not engine.decide(T.le(T.IZERO, v)):
            v = T.add(d.term, v)
        return v
    if i.step is not None and lift(i.step) is not T.IONE:
        raise Unsupported('slice %s of a symbolic axis' % (i,))
    a, b = bound(i.start, T.IZERO), bound(i.stop, d.term)
    for c in (T.le(T.IZERO, a), T.le(a, b), T.le(b, d.term)):
        if not engine.decide(c):
            raise Unsupported('slice %s of a symbolic axis' % (i,))
    return a, dimof(T.sub(b, a))


def _short(x, idx):
    """the first slice of a symbolic axis whose length is a number"""
    ax = 0
    for k, i in enumerate(idx):
        if i is None:
            continue
        if isinstance(i, slice) and x.dims[ax] is not None and not _is_full(i, x.dims[ax]) and \
                not (i.start is None and i.stop is None) and stepped(i, x.dims[ax]) is None:
            lo, nd = slice_of(i, x.dims[ax])
            if isinstance(nd, int):
                return k, lo, nd
        ax += 1
    return None


def _is_full(s, length):
    if not isinstance(s, slice):
        return False
    st = s.start
    if not (st is None or (isinstance(st, int) and st == 0) or (isinstance(st, Term) and T.num(st) == 0)):
        return False
    if not (s.step is None or (isinstance(s.step, int) and s.step == 1)):
        return False
    if s.stop is None:
        return True
    if isinstance(length, Dim):
        return isinstance(s.stop, Term) and s.stop is length.term
    return False


def _toint(v):
    if v is None:
        return None
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, Term):
        return v.__index__()
    if isinstance(v, SymArr):
        return v.__index__()
    return v.__index__()


def _prep(x, idx):
    out = []
    for i in idx:
        if isinstance(i, np.ndarray):
            i = asarr(i)
        elif isinstance(i, list):
            i = asarr(i)
            if i.kind == 'R' and i.a.size == 0:
                i = SymArr(_obj((0,)), (None,), 'I')
        if isinstance(i, SymMA):
            i = i.data
        if isinstance(i, SymArr) and i.ndim == 0:
            i = i.item()
        if isinstance(i, np.bool_):
            i = bool(i)
        out.append(i)
    return out


def getitem(x, idx):
    if isinstance(x, SymMA):
        d = getitem(x._data, idx)
        m = nomask if x._mask is nomask else getitem(x._mask, idx)
        if isinstance(d, Comp):
            return Comp(d.mask, SymMA(d.full.a, d.full.dims, d.full.kind, m if m is nomask else m.full, x._fv))
        if isinstance(d, SymArr):
            return x._wrap(d, m)
        if m is nomask or m is T.FALSE:
            return d
        if m is T.TRUE:
            return masked
        return SymMA(_obj_full((), d), (), kindof(d), asarr(m), x._fv)
    idx = _norm_index(x, _prep(x, idx if isinstance(idx, tuple) else (idx,)))
    # whole-array mask
    if any(isinstance(i, SymArr) and i.kind == 'B' for i in idx):
        return _mask_get(x, idx)
    if any(isinstance(i, MaskIdx) for i in idx):
        return _mask_get(x, _maskidx_to_mask(x, idx))
    if any(isinstance(i, SymArr) for i in idx):
        return _fancy_get(x, idx)
    if any(isinstance(i, bool) for i in idx):
        raise Unsupported('boolean scalar index')
    # basic indexing
    short = _short(x, idx)
    if short is not None:
        k, lo, n = short
        pos = sum(1 for i in idx[:k] if i is None or isinstance(i, slice))
        parts = [asarr(getitem(x, tuple(idx[:k] + [T.add(lo, T.const(j))] + idx[k + 1:]))) for j in range(n)]
        if not parts:
            e = asarr(getitem(x, tuple(idx[:k] + [0] + idx[k + 1:])))
            return SymArr(_obj(e.a.shape[:pos] + (0,) + e.a.shape[pos:]), e.dims[:pos] + (None,) + e.dims[pos:], x.kind)
        return stack(parts, pos)
    a = x.a
    ax = 0
    pidx = []
    layout_src = []      # per output axis: old axis or None
    submap = {}
    newdims = {}
    n = x.ndim
    writable = x.writable
    selects = []
    for i in idx:
        if i is None:
            pidx.append(None)
            layout_src.append(None)
            continue
        p = n - 1 - ax
        if isinstance(i, slice):
            if x.dims[ax] is not None:
                if not _is_full(i, x.dims[ax]):
                    if i.start is None and i.stop is None and isinstance(i.step, int) and i.step == -1:
                        submap[IX[p]] = T.sub(T.sub(x.dims[ax].term, T.IONE), IX[p])
                        writable = False
                    elif stepped(i, x.dims[ax]) is not None:
                        st, lo, nd = stepped(i, x.dims[ax])
                        submap[IX[p]] = T.add(T.mul(T.const(st), IX[p]), lo)
                        newdims[ax] = nd
                        writable = False
                    else:
                        lo, nd = slice_of(i, x.dims[ax])
                        submap[IX[p]] = T.add(IX[p], lo)
                        newdims[ax] = nd
                        writable = False
                pidx.append(slice(None))
            else:
                pidx.append(slice(_toint(i.start), _toint(i.stop), _toint(i.step)))
            layout_src.append(ax)
        else:
            if x.dims[ax] is not None:
                k = i
                if isinstance(k, (int, np.integer)):
                    k = T.const(int(k)) if k >= 0 else T.sub(x.dims[ax].term, T.const(-int(k)))
                elif not isinstance(k, Term):
                    k = lift(k)
                if k.kind != 'I':
                    raise IndexError('only integers, slices, ... are valid indices')
                in_bounds(k, x.dims[ax])
                submap[IX[p]] = k
                pidx.append(0)
                writable = False
            else:
                if isinstance(i, Term) and i.op != 'const':
                    if i.kind != 'I':
                        raise IndexError('only integers are valid indices')
                    # symbolic index into a concrete axis
                    selects.append((len(layout_src), ax, i))
                    pidx.append(slice(None))
                    layout_src.append(('sel', ax))
                else:
                    if isinstance(i, Term) and i.kind != 'I':
                        raise IndexError('only integers, slices (`:`), ellipsis are valid indices')
                    if isinstance(i, float):
                        raise IndexError('only integers are valid indices')
                    pidx.append(_toint(i))
        ax += 1
    b = a[tuple(pidx)]
    if not isinstance(b, np.ndarray) or b.dtype != object:
        b = _obj_full((), b)
    n_new = len(layout_src)
    m = dict(submap)
    for newpos, src in enumerate(layout_src):
        if isinstance(src, int) and x.dims[src] is not None:
            p, q = n - 1 - src, n_new - 1 - newpos
            if p != q:
                m.setdefault(IX[p], IX[q]) if IX[p] not in submap else None
                if IX[p] in submap:
                    m[IX[p]] = T.subst(submap[IX[p]], {IX[p]: IX[q]})
                writable = False
    b2 = rename(b, m)
    dims = [newdims.get(src, x.dims[src]) if isinstance(src, int) else None for src in layout_src]
    if any(isinstance(d, int) for d in dims):
        raise Unsupported('slice of length one of a symbolic axis')
    r = SymArr(b2, dims, x.kind, writable=writable)
    if x.writable and not selects and r.ndim and None not in idx and (newdims or not writable):
        r = SliceView(r, x, tuple(idx))
    for pos, axx, k in reversed(selects):
        n_el = r.a.shape[pos]
        acc = None
        for j in range(n_el - 1, -1, -1):
            e = r[tuple([slice(None)] * pos + [j])]
            acc = e if acc is None else where(T.eq(k, T.const(j)), e, acc)
        r = asarr(acc)
    if r.ndim == 0 and x.ndim > 0 or (r.ndim == 0 and idx == []):
        return r.a[()]
    return r


def where(c, x, y):
    return ew3(T.ite, c, x, y)


def _mask_get(x, idx):
    masks = [(k, i) for k, i in enumerate(idx) if isinstance(i, SymArr) and i.kind == 'B']
    if len(masks) != 1:
        raise Unsupported('several boolean masks')
    k, m = masks[0]
    if m.is_const() and all(x.dims[ax] is None for ax in range(k, k + m.ndim)):
        cm = m.concrete()
        if x.lens[k:k + m.ndim] != m.lens:
            raise IndexError('boolean index did not match indexed array')
        if m.ndim == 1:
            sel = np.nonzero(cm)[0]
            new = idx[:k] + [SymArr(map_obj(lift, np.array(sel, dtype=object)) if sel.size else _obj((0,)), (None,), 'I')] + idx[k + 1:]
            return _fancy_get(x, new)
        if k == 0 and m.ndim == x.ndim:
            b = x.a[cm]
            return SymArr(b, (None,), x.kind)
        raise Unsupported('concrete mask over several axes')
    others = [i for j, i in enumerate(idx) if j != k]
    if all(isinstance(o, slice) and o == slice(None) for o in others) and k == 0 and m.ndim == x.ndim:
        if m.lens != x.lens:
            raise IndexError('boolean index did not match indexed array')
        return Comp(m, x.copy())
    # mask along some axes, integers elsewhere: index the rest first
    if m.ndim == 1:
        rest = list(idx)
        rest[k] = slice(None)
        sub = x[tuple(rest)]
        if isinstance(sub, SymArr) and sub.ndim == 1:
            if m.lens != sub.lens:
                raise IndexError('boolean index did not match')
            return Comp(m, sub.copy())
        if isinstance(sub, SymArr) and sub.ndim == 2 and k == 0 and len(idx) == 2:
            full = broadcast_to(m.relayout([0, None]), sub.lens)
            return Comp(full, sub.copy())
    raise Unsupported('mask index')


def _maskidx_to_mask(x, idx):
    hs = [i for i in idx if isinstance(i, MaskIdx)]
    m = hs[0].mask
    if not all(same_mask(h.mask, m) for h in hs):
        raise Unsupported('mixed nonzero indices')
    if [h.axis for h in hs] != list(range(m.ndim)) and [h.axis for h in hs] != [0]:
        raise Unsupported('nonzero indices out of order')
    out = []
    done = False
    for i in idx:
        if isinstance(i, MaskIdx):
            if not done:
                out.append(m)
                done = True
        else:
            out.append(i)
    return out


def _fancy_get(x, idx):
    """integer array indices; concrete axes with concrete indices, or one
    symbolic index array"""
    fan = [(k, i) for k, i in enumerate(idx) if isinstance(i, SymArr)]
    if any(i is None for i in idx):
        raise Unsupported('newaxis with fancy indexing')
    if all(i.is_const() for k, i in fan) and all(x.dims[k] is None for k, i in fan):
        # symbolic axes must keep their right position: handle the common
        # single-array case by taking along the axis
        if len(fan) == 1:
            k, i = fan[0]
            rest = [slice(None) if isinstance(v, SymArr) else v for v in idx]
            # integers to the left/right change positions: do fancy part first
            sel = i.concrete().astype(int)
            if sel.ndim == 1:
                b = np.take(x.a, sel, axis=k)
                y = SymArr(b, x.dims, x.kind)
                return y[tuple(rest)]
            if x.ndim == 1:
                b = x.a[sel]
                return SymArr(b, (None,) * b.ndim, x.kind)
        if all(d is None for d in x.dims):
            b = x.a[tuple(i.concrete().astype(int) if isinstance(i, SymArr) else
                          (slice(_toint(i.start), _toint(i.stop), _toint(i.step)) if isinstance(i, slice) else _toint(i))
                          for i in idx)]
            return SymArr(b, (None,) * b.ndim, x.kind)
        raise Unsupported('fancy indexing with symbolic axes')
    # gather: all axes indexed by integer arrays (broadcast together)
    if all(isinstance(i, (SymArr, Term, int, np.integer)) for i in idx):
        arrs = [asarr(i) for i in idx]
        lens = broadcast_lens(*[a.lens for a in arrs])
        arrs = [broadcast_to(a, lens) for a in arrs]
        out = _obj(phys(lens))
        fo = out.ravel()
        flats = [a.a.ravel() for a in arrs]
        free = {IX[len(lens) - 1 - ax]: d for ax, d in enumerate(lens) if isinstance(d, Dim)}
        GENERIC.append(free)
        try:
            for j in range(fo.size):
                fo[j] = x[tuple(f[j] for f in flats)]
        finally:
            GENERIC.pop()
        # each element is evaluated at its own index; index variables in the
        # element index terms are those of the result
        out = fo.reshape(phys(lens))
        return SymArr(out, dims_of(lens), x.kind)
    if len(fan) == 1 and fan[0][1].ndim == 1:
        k, i = fan[0]
        rest = list(idx)
        if all(isinstance(v, slice) and v == slice(None) for j, v in enumerate(idx) if j != k):
            # gather along one axis
            p = x.ndim - 1 - k
            if x.dims[k] is None:
                raise Unsupported('symbolic gather from a concrete axis')
            parts = []
            for e in i.a.ravel():
                e2 = T.subst(e, {IX[0]: IX[p]}) if i.dims[0] is not None else e
                in_bounds(e2, x.dims[k], {IX[p]: i.dims[0]})
                parts.append(rename(x.a, {IX[p]: e2}))
            a = np.concatenate(parts, axis=k)
            dims = list(x.dims)
            dims[k] = i.dims[0]
            return SymArr(a, dims, x.kind)
    raise Unsupported('fancy indexing')


def setitem(x, idx, v):
    if isinstance(idx, tuple) and any(getattr(i, 'scatter', False) for i in idx) and not isinstance(x, SymMA):
        from . import vfile
        return vfile.scatter_set(x, idx, v)
    if isinstance(x, SymMA):
        if v is masked:
            m = x.getmask()
            setitem(m, idx, T.TRUE)
            x.mask = m
            return
        if isinstance(v, np.ma.MaskedArray):
            v = asarr(v)
        if isinstance(v, Comp) and isinstance(v.full, SymMA):
            vm = Comp(v.mask, v.full.getmask())
            vd = Comp(v.mask, v.full.data)
        elif isinstance(v, SymMA):
            vm, vd = v.getmask(), v.data
            if v.mask is nomask:
                vm = T.FALSE
        else:
            vm, vd = T.FALSE, v
        setitem(x._data, idx, vd)
        if x._mask is not nomask or not (vm is T.FALSE):
            m = x.getmask()
            setitem(m, idx, vm)
            x.mask = m
        for w in _writes:
            w(x)
        return
    if isinstance(v, SymMA):
        v = v.data
    if isinstance(v, Comp) and isinstance(v.full, SymMA):
        v = Comp(v.mask, v.full.data)
    if isinstance(v, (list, tuple, np.ndarray)):
        v = asarr(v)
    x._touch()
    idx = _norm_index(x, _prep(x, idx if isinstance(idx, tuple) else (idx,)))
    if any(isinstance(i, MaskIdx) for i in idx):
        idx = _maskidx_to_mask(x, idx)
    masks = [(k, i) for k, i in enumerate(idx) if isinstance(i, SymArr) and i.kind == 'B']
    if masks:
        return _mask_set(x, idx, masks, v)
    if any(isinstance(i, SymArr) for i in idx):
        return _fancy_set(x, idx, v)
    # basic: figure out the selected block and the guards
    n = x.ndim
    guards = []
    pidx = []
    kept = []        # old axes that remain in the selection
    ax = 0
    lens = []
    inv = {}
    for i in idx:
        if i is None:
            raise Unsupported('newaxis in assignment')
        p = n - 1 - ax
        if isinstance(i, slice):
            if x.dims[ax] is not None:
                if not _is_full(i, x.dims[ax]):
                    step = stepped(i, x.dims[ax])
                    if step is not None:
                        st, lo, nd = step
                        at = T.sub(IX[p], lo)
                        guards.append(T.eq(T.quorem('rem', st, at), T.IZERO))
                        guards += [T.le(lo, IX[p]), T.lt(IX[p], T.add(lo, T.mul(T.const(st), nd.term)))]
                        inv[IX[p]] = T.quorem('quo', st, at)
                        pidx.append(slice(None))
                        lens.append(nd)
                        kept.append(ax)
                        ax += 1
                        continue
                    lo, nd = slice_of(i, x.dims[ax])
                    if isinstance(nd, int):
                        k = len(pidx)
                        if len(idx) != x.ndim:
                            raise Unsupported('assignment to a slice')
                        pos = sum(1 for j in idx[:k] if isinstance(j, slice))
                        val = asarr(v)
                        if nd == 0:
                            if val.ndim and val.ndim >= x.ndim - pos and val.lens[pos - x.ndim] not in (0, 1):
                                raise ValueError('could not broadcast input array')
                            return
                        along = val.ndim >= sum(1 for j in idx if isinstance(j, slice)) - pos and val.ndim > 0
                        cut = val.ndim - (sum(1 for j in idx if isinstance(j, slice)) - pos)
                        if along and val.lens[cut] not in (1, nd):
                            raise ValueError('could not broadcast input array')
                        for j in range(nd):
                            w = val
                            if along:
                                w = val[tuple([slice(None)] * cut + [j if val.lens[cut] != 1 else 0])]
                            setitem(x, tuple(list(idx[:k]) + [T.add(lo, T.const(j))] + list(idx[k + 1:])), w)
                        return
                    guards += [T.le(lo, IX[p]), T.lt(IX[p], T.add(lo, nd.term))]
                    inv[IX[p]] = T.sub(IX[p], lo)
                    pidx.append(slice(None))
                    lens.append(nd)
                    kept.append(ax)
                    ax += 1
                    continue
                pidx.append(slice(None))
                lens.append(x.dims[ax])
            else:
                s = slice(_toint(i.start), _toint(i.stop), _toint(i.step))
                pidx.append(s)
                lens.append(len(range(*s.indices(x.a.shape[ax]))))
            kept.append(ax)
        else:
            if x.dims[ax] is not None:
                k = i
                if isinstance(k, (int, np.integer)):
                    k = T.const(int(k)) if k >= 0 else T.sub(x.dims[ax].term, T.const(-int(k)))
                in_bounds(lift(k), x.dims[ax])
                guards.append(T.eq(IX[p], lift(k)))
                pidx.append(slice(None))
            else:
                if isinstance(i, Term) and i.op != 'const':
                    raise Unsupported('assignment at a symbolic index of a concrete axis')
                if isinstance(i, float) or (isinstance(i, Term) and i.kind != 'I'):
                    raise IndexError('only integers are valid indices')
                j = _toint(i)
                j = j + x.a.shape[ax] if j < 0 else j
                if not 0 <= j < x.a.shape[ax]:
                    raise IndexError('index out of bounds')
                pidx.append(slice(j, j + 1))
        ax += 1
    if isinstance(v, Comp):
        raise Unsupported('selection assigned to a block')
    val = asarr(v)
    # drop leading length-1 axes of the value
    while val.ndim > len(lens) and val.lens[0] == 1:
        val = val.relayout(list(range(1, val.ndim)))
    val = broadcast_to(val, lens)
    # move the value axes to the positions of the target
    lay = [None] * n
    for j, axx in enumerate(kept):
        lay[axx] = j
    val = val.relayout(lay)
    k = x.kind
    if k in 'IB' and val.kind in 'C':
        raise TypeError('cannot cast')
    new = map_obj(lambda e: cast(e, k), rename(val.a, inv))
    g = T.conj(guards)
    tgt = x.a[tuple(pidx)]
    if g is not T.TRUE:
        new = zipmap(lambda e, o: T.ite(g, e, o), new, tgt)
    x.a[tuple(pidx)] = np.broadcast_to(new, tgt.shape)


def _mask_set(x, idx, masks, v):
    if len(masks) != 1:
        raise Unsupported('several masks')
    k, m = masks[0]
    K = x.kind
    if len(idx) == 1 and m.lens == x.lens or (k == 0 and m.ndim == x.ndim):
        if m.lens != x.lens:
            raise IndexError('boolean index did not match indexed array')
        if m.is_const():
            cm = m.concrete()
            val = asarr(v) if not isinstance(v, Comp) else v
            if isinstance(val, Comp):
                full = broadcast_to(asarr(val.full), x.lens)
                for pos in zip(*np.nonzero(cm)):
                    x.a[pos] = cast(full.a[pos], K)
                return
            if val.ndim == 0 or val.a.size == 1:
                e = cast(val.a.ravel()[0], K)
                for pos in zip(*np.nonzero(cm)):
                    x.a[pos] = e
            else:
                for e, pos in zip(val.a.ravel(), zip(*np.nonzero(cm))):
                    x.a[pos] = cast(e, K)
            return
        if isinstance(v, Comp):
            if not same_mask(v.mask, m):
                raise Unsupported('assignment of a selection of another mask')
            val = broadcast_to(asarr(v.full), x.lens)
        else:
            val = asarr(v)
            if val.ndim > 0:
                if val.lens == (1,):
                    val = asarr(val.a.ravel()[0])
                else:
                    raise Unsupported('assignment of an array through a symbolic mask')
            val = broadcast_to(val, x.lens)
        new = map_obj(lambda e: cast(e, K), val.a)
        res = np.empty(x.a.shape, dtype=object)
        fr, fm, fn_, fo = res.ravel(), m.a.ravel(), new.ravel(), x.a.ravel()
        for i in range(fr.size):
            fr[i] = T.ite(fm[i], fn_[i], fo[i])
        x.a[...] = fr.reshape(x.a.shape)
        return
    if m.ndim == 1:
        # x[..., mask, ...]: broadcast the mask over the other (full or integer) axes
        n = x.ndim
        lay = [None] * n
        lay[k] = 0
        mm = m.relayout(lay)
        tgt_idx = tuple(slice(None) if j == k else i for j, i in enumerate(idx))
        cur = x[tgt_idx]
        if not isinstance(cur, SymArr):
            raise Unsupported('mask assignment')
        # axis of the mask in the selection
        axis = sum(1 for j, i in enumerate(idx[:k]) if isinstance(i, slice))
        l2 = [None] * cur.ndim
        l2[axis] = 0
        mc = broadcast_to(m.relayout(l2), cur.lens)
        cur = cur.copy()
        if isinstance(v, Comp):
            if cur.ndim == 1 and same_mask(v.mask, m):
                cur[m] = v
            elif same_mask(v.mask, mc):
                cur[mc] = v
            else:
                raise Unsupported('mask assignment of a selection')
        else:
            va = asarr(v)
            if va.ndim == 0:
                cur[mc] = v
            elif va.ndim == cur.ndim - 1 and axis == 0:
                full = broadcast_to(va.relayout([None] + list(range(va.ndim))), cur.lens)
                cur = asarr(ew3(T.ite, mc, full, cur))
            else:
                raise Unsupported('mask assignment of an array')
        x[tgt_idx] = cur
        return
    raise Unsupported('mask assignment')


def _fancy_set(x, idx, v):
    fan = [(k, i) for k, i in enumerate(idx) if isinstance(i, SymArr)]
    if not all(i.is_const() for k, i in fan):
        raise Unsupported('assignment at symbolic indices')
    if len(fan) == 1 and fan[0][1].ndim == 1:
        k, i = fan[0]
        sel = [int(s) for s in i.concrete()]
        va = asarr(v)
        axis = sum(1 for j in idx[:k] if isinstance(j, slice))
        for c, s in enumerate(sel):
            t = list(idx)
            t[k] = s
            ncut = sum(1 for j in idx if isinstance(j, (slice, SymArr)))
            if va.ndim == ncut:
                q = va.lens[axis]
                w = va[tuple([slice(None)] * axis + [c if q != 1 else 0])]
            else:
                w = va if va.ndim < ncut - axis else va[c]
            x[tuple(t)] = w
        return
    if all(d is None for d in x.dims):
        va = asarr(v)
        ii = tuple(i.concrete().astype(int) if isinstance(i, SymArr) else
                   (slice(_toint(i.start), _toint(i.stop), _toint(i.step)) if isinstance(i, slice) else _toint(i))
                   for i in idx)
        K = x.kind
        x.a[ii] = map_obj(lambda e: cast(e, K), va.a)
        return
    raise Unsupported('fancy assignment')


# ------------------------------------------------------------- linear algebra
def einsum(spec, *ops):
    ops = [asarr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '->' in spec:
        lhs, rhs = spec.split('->')
    else:
        lhs, rhs = spec, None
    subs = lhs.split(',')
    if len(subs) != len(ops):
        raise ValueError('einsum operands')
    labels = []
    ell = 0
    for s, o in zip(subs, ops):
        if '...' in s:
            ell = max(ell, o.ndim - len(s.replace('...', '')))
    ells = [('E', i) for i in range(ell)]
    for s, o in zip(subs, ops):
        if '...' in s:
            a, b = s.split('...')
            ne = o.ndim - len(a) - len(b)
            labels.append(list(a) + ells[ell - ne:] + list(b))
        else:
            labels.append(list(s))
            if len(s) != o.ndim:
                raise ValueError('einsum subscripts do not match the operand')
    if rhs is None:
        cnt = {}
        for l in labels:
            for c in l:
                cnt[c] = cnt.get(c, 0) + 1
        out = ells + sorted(c for c in cnt if not isinstance(c, tuple) and cnt[c] == 1)
    else:
        if '...' in rhs:
            a, b = rhs.split('...')
            out = list(a) + ells + list(b)
        else:
            out = list(rhs)
    allab = list(out)
    for l in labels:
        for c in l:
            if c not in allab:
                allab.append(c)
    summed = [c for c in allab if c not in out]
    # summed labels go to the right of the output labels
    r = None
    for l, o in zip(labels, ops):
        if len(set(l)) != len(l):
            # repeated label: take the diagonal over a concrete axis
            o, l = _diag(o, l)
        lay = [l.index(c) if c in l else None for c in allab]
        o2 = o.relayout(lay)
        r = o2 if r is None else asarr(r * o2)
    for c in reversed(summed):
        r = _reduce1(r, 'sum', r.ndim - 1, False)
    if r.ndim == 0:
        return r.a[()]
    return r


def _diag(o, l):
    for c in l:
        pos = [i for i, d in enumerate(l) if d == c]
        if len(pos) == 2:
            i, j = pos
            if o.dims[i] is not None or o.dims[j] is not None:
                raise Unsupported('diagonal of symbolic axes')
            n = o.a.shape[i]
            parts = []
            for k in range(n):
                ix = [slice(None)] * o.ndim
                ix[i] = k
                ix[j] = k
                parts.append(asarr(o[tuple(ix)]))
            o = stack(parts, 0)
            l = [c] + [d for q, d in enumerate(l) if q not in pos]
            return _diag(o, l) if len(set(l)) != len(l) else (o, l)
    return o, l


_L = 'abcdefghijklmnop'


def dot(a, b):
    if isinstance(a, Comp) and isinstance(b, Comp) and a.full.ndim == 1:
        return reduce_(a * b, 'sum', None, False)
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    sa = _L[:a.ndim]
    if b.ndim == 1:
        sb = sa[-1]
        return einsum('%s,%s->%s' % (sa, sb, sa[:-1]), a, b)
    sb = 'qrstuv'[:b.ndim - 2] + sa[-1] + 'z'
    _check_inner(a.lens[-1], b.lens[-2])
    return einsum('%s,%s->%s%s' % (sa, sb, sa[:-1], sb.replace(sa[-1], '')), a, b)


def _check_inner(x, y):
    if x is not y and x != y:
        raise ValueError('shapes not aligned: %s != %s' % (x, y))


def inner(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    _check_inner(a.lens[-1], b.lens[-1])
    sa = _L[:a.ndim - 1] + 'z'
    sb = 'qrstuv'[:b.ndim - 1] + 'z'
    return einsum('%s,%s->%s%s' % (sa, sb, sa[:-1], sb[:-1]), a, b)


def matmul(a, b):
    if isinstance(a, Comp):
        return dot(a, b)
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 or b.ndim == 1:
        return dot(a, b)
    return einsum('...ij,...jk->...ik', a, b)


def repeat(x, n, axis=None):
    x = asarr(x)
    if axis is None:
        x = x.flatten()
        axis = 0
    if isinstance(x, SymMA):
        raise Unsupported('repeat of masked')
    if x.lens[axis] == 1:
        d = dimof(n)
        lens = list(x.lens)
        lens[axis] = d
        return broadcast_to(x, lens)
    if isinstance(n, int):
        return SymArr(np.repeat(x.a, n, axis), x.dims, x.kind)
    raise Unsupported('repeat')


# ------------------------------------------------------------- opaque lists
class SymSeq:
    """a list of symbolic length (e.g. constituent names): element k is the
    opaque object elem(k)"""

    def __init__(self, dim, elem):
        self.dim = dim
        self.elem = elem

    def symlen(self):
        return self.dim.term

    def __getitem__(self, k):
        if isinstance(k, slice) and k == slice(None):
            return self
        if isinstance(k, int):
            k = T.const(k)
        return self.elem(k)

    def __iter__(self):
        raise Unsupported('iteration over a list of symbolic length outside a loop statement')

    def __len__(self):
        raise Unsupported('len of a list of symbolic length through C code')

    def as_array(self):
        # the element at an arbitrary position, which has to come out
        # without a decision or an assumption about that position
        from . import engine as E
        k = T.fresh('%el', 'I')
        bound = [T.le(T.const(0), k), T.lt(k, self.dim.term)]
        was, known = len(E.S.assume), dict(E.S.known)
        trails = [len(f.trail) for f in E.S.frames]
        for b in bound:
            E.assume(b)
        n = len(E.S.assume)
        try:
            x = self.elem(k)
            if isinstance(x, (Opaque, str)):
                raise Unsupported('array of opaque objects')
            x = asarr(x)
            if len(E.S.assume) != n or [len(f.trail) for f in E.S.frames] != trails:
                raise Unsupported('array of elements that take a decision each')
        finally:
            del E.S.assume[was:]
            E.S.known = known
        j = IX[len(x.lens)]
        out = _obj(x.a.shape)
        for pos in np.ndindex(out.shape):
            out[pos] = sub_elem(x.a[pos], {k: j})
        return SymArr(out[None], dims_of((self.dim,) + tuple(x.lens)), x.kind)

    def __copy__(self):
        return self


def _pick(c, a, b):
    if isinstance(a, CTerm):
        return CTerm(T.ite(c, a.re, b.re), T.ite(c, a.im, b.im))
    return T.ite(c, a, b)


class SegList:
    """the list items + [new_0(k), .., new_p-1(k) for k in range(dim)]"""

    def __init__(self, items, dim, k, new):
        self.items, self.rep, self.k, self.new = list(items), dim, k, list(new)
        t = T.add(T.const(len(items)), T.mul(T.const(len(new)), dim.term))
        self.dim = Dim('%d+%d*%s' % (len(items), len(new), dim.name))
        self.dim.term = t

    def symlen(self):
        return self.dim.term

    def append(self, x):
        raise Unsupported('append to a list of symbolic length')

    def __iter__(self):
        raise Unsupported('iteration over a list of symbolic length')

    def __len__(self):
        raise Unsupported('len of a list of symbolic length through C code')

    def as_array(self):
        xs = [asarr(x) for x in self.items + self.new]
        lens = broadcast_lens(*[x.lens for x in xs])
        if any(x.lens != lens for x in xs):
            raise Unsupported('rows of different lengths')
        kind = maxkind([x.kind for x in xs])
        j = IX[len(lens)]
        c, p = len(self.items), len(self.new)
        q = T.sub(j, T.const(c))
        it = T.floordiv(q, T.const(p)) if p > 1 else q
        rows = [x.astype({'R': float, 'I': int, 'B': bool, 'C': complex}[kind]) if x.kind != kind else x for x in xs]
        out = _obj(rows[0].a.shape)
        for pos in np.ndindex(out.shape):
            new = [sub_elem(x.a[pos], {self.k: it}) for x in rows[c:]]
            v = new[-1]
            for i in range(p - 2, -1, -1):
                v = _pick(T.eq(T.mod(q, T.const(p)), T.const(i)), new[i], v)
            for i in range(c - 1, -1, -1):
                v = _pick(T.eq(j, T.const(i)), rows[i].a[pos], v)
            out[pos] = v
        return SymArr(out[None], dims_of((self.dim,) + tuple(lens)), kind)


class Opaque:
    """an opaque object identified by a term (e.g. the k-th constituent)"""

    def __init__(self, term, label=''):
        self.term = term
        self.label = label

    def lower(self):
        return self

    def __repr__(self):
        return '<%s %r>' % (self.label, self.term)

    def __eq__(self, o):
        if isinstance(o, Opaque):
            return T.eq(self.term, o.term)
        raise Unsupported('comparison of an opaque %s with %r' % (self.label, o))

    def __ne__(self, o):
        return T.not_(self == o)

    __hash__ = None
