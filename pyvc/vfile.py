"""Binary files of symbolic size and content: a file is a function from byte
offsets to the integers and the numbers stored there (trusted model of
open, seek, tell, read, close and numpy.fromfile)"""
import numpy as np
from . import arr as A
from . import terms as T
from . import engine, npproxy
from .arr import SymArr, IX
from .terms import Term, Unsupported, lift


def build(lens, f, kind):
    """array with the element f(indices) at each position"""
    lens = tuple(A.dimof(s) for s in lens)
    nd = len(lens)
    a = A._obj(A.phys(lens))
    for pos in np.ndindex(a.shape):
        a[pos] = f(*[IX[nd - 1 - ax] if isinstance(lens[ax], A.Dim) else T.const(pos[ax]) for ax in range(nd)])
    return SymArr(a, A.dims_of(lens), kind)


def same(a, b):
    from . import nf
    return nf.is_zero(T.sub(lift(a), lift(b)))


class Lazy:
    """elements start + step * k of a record, for k below count"""

    def __init__(self, f, kind, start, step, count):
        self.f, self.kind = f, kind
        self.start, self.step, self.count = lift(start), step, lift(count)

    def elem(self, k):
        return self.f(T.add(self.start, T.mul(T.const(self.step), k)))

    def array(self):
        return build((self.count,), self.elem, self.kind)

    def symlen(self):
        return self.count

    def __getitem__(self, i):
        if isinstance(i, slice):
            step = 1 if i.step is None else int(i.step)
            lo = T.IZERO if i.start is None else lift(i.start)
            hi = self.count if i.stop is None else lift(i.stop)
            if step < 1:
                raise Unsupported('reversed record')
            n = T.sub(hi, lo)
            # within the record
            if T.num(lo) is None or T.num(lo) < 0 or (engine.decide(T.lt(self.count, hi)) if hi is not self.count else False):
                raise Unsupported('slice of a record')
            # length: the ceiling of n / step
            for d in list(A.Dim.table.values()):
                if any(same(n, T.add(T.mul(T.const(step), d.term), T.const(-r))) for r in range(step)):
                    return Lazy(self.f, self.kind, T.add(self.start, T.mul(T.const(self.step), lo)), self.step * step, d.term).array()
            raise Unsupported('length of a slice of a record')
        if isinstance(i, tuple):
            return self.array()[i]
        return self.elem(lift(i))

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        lens = tuple(A.dimof(s) for s in shape)
        n = T.IONE
        for d in lens:
            n = T.mul(n, lift(A.dimterm(d)))
        if not same(n, self.count):
            raise ValueError('cannot reshape array')

        def f(*ix):
            k = T.IZERO
            for d, i in zip(lens, ix):
                k = T.add(T.mul(k, lift(A.dimterm(d))), i)
            return self.elem(k)
        return build(lens, f, self.kind)

    def __sub__(self, n):
        return Index(self, T.neg(lift(n)))

    def __add__(self, n):
        return Index(self, lift(n))

    __radd__ = __add__

    def astype(self, *a, **k):
        return self if self.kind == 'I' else self.array().astype(*a, **k)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return getattr(self.array(), name)


class Index:
    """indices that a record lists, shifted: positions of values in a matrix.
    The positions are distinct; at/listed are the inverse of the list"""
    scatter = True

    def __init__(self, rec, shift):
        self.rec, self.shift = rec, shift

    def __sub__(self, n):
        return Index(self.rec, T.sub(self.shift, lift(n)))

    def __add__(self, n):
        return Index(self.rec, T.add(self.shift, lift(n)))

    __radd__ = __add__

    def astype(self, *a, **k):
        return self

    copy = astype


def listed(j, i, row, col, n):
    """is (row, col) a pair of the lists that start at offsets j and i, and where"""
    a = (lift(j), lift(i), lift(n), lift(row), lift(col))
    return T.app('listed', *a, kind='B'), T.app('at', *a, kind='I')


def scatter_set(x, idx, v):
    if x.ndim != 2 or len(idx) != 2 or not all(isinstance(i, Index) for i in idx) or None in x.dims:
        raise Unsupported('assignment at indices of a record')
    J, I = idx
    if not same(J.rec.count, I.rec.count):
        raise IndexError('shape mismatch')
    m, k = listed(J.rec.start, I.rec.start, T.sub(IX[1], J.shift), T.sub(IX[0], I.shift), J.rec.count)
    if isinstance(v, Lazy):
        v = v.array()
    v = A.asarr(v)
    if v.ndim and not same(lift(A.dimterm(v.lens[0])), J.rec.count):
        raise ValueError('shape mismatch')
    x._touch()
    new = v.a.ravel()[0]
    if v.ndim:
        new = T.subst(new, {IX[0]: k})
    old = x.a[0, 0]
    x.a[0, 0] = A.cast(T.ite(m, A.cast(lift(new), x.kind), old), x.kind)


class VFile:
    """an open file. header: integers (or numbers) at constant offsets"""

    def __init__(self, w, header, size=None, strings=None):
        self.w, self.header, self.size = w, header, size
        self.strings = strings or (lambda o, n: None)
        self.pos = build((1,), lambda i: T.IZERO, 'I')
        self.closed = False
        npproxy.NANABLE.add('f4')

    # content
    def number(self, o):
        v = self.known(o, 'R')
        return T.app('f4', o) if v is None else v

    def whole(self, o):
        v = self.known(o, 'I')
        return T.app('i4', o, kind='I') if v is None else v

    def known(self, o, kind):
        for p, v in self.header.items():
            if (p == o if not isinstance(p, Term) and T.num(o) is not None else same(p, o)):
                v = lift(v)
                return v if v.kind == kind else None
        return None

    # operations
    def here(self):
        return self.pos.a[0]

    def move(self, n):
        self.pos[0] = T.add(self.here(), lift(n))

    def seek(self, n, whence=0):
        if whence == 0:
            self.pos[0] = lift(n)
        elif whence == 1:
            self.move(n)
        else:
            raise Unsupported('seek from the end')

    def tell(self):
        return self.here()

    def read(self, n=None):
        o = self.here()
        self.move(n)
        return self.strings(o, lift(n))

    def fromfile(self, dtype, count):
        dt = np.dtype(dtype) if not isinstance(dtype, A.SymDtype) else None
        if dt is not None and dt.kind == 'S':
            o, n = self.here(), T.mul(T.const(dt.itemsize), lift(count))
            self.move(n)
            return self.strings(o, n).each(dt.itemsize)
        if dt is None or dt.str not in ('>i4', '>f4'):
            raise Unsupported('type of a record: %s' % dtype)
        f, kind = (self.whole, 'I') if dt.kind == 'i' else (self.number, 'R')
        o = self.here()
        n = lift(count)
        self.move(T.mul(T.const(4), n))
        if T.num(n) is not None:
            return build((int(T.num(n)),), lambda k: f(T.add(o, T.mul(T.const(4), k))), kind)
        return Lazy(f, kind, o, 4, n)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


VFile.__module__ = 'types'


class Names:
    """the bytes of names that are n characters wide each, padded with blanks"""

    def __init__(self, names, width=4):
        self.names, self.width = names, width

    def decode(self, *a):
        return self

    def strip(self, *a):
        raise Unsupported('blanks of a list of names')

    split = rstrip = lstrip = strip

    def each(self, width):
        if width != self.width:
            raise Unsupported('names that are %d characters wide' % width)
        return Names1(self.names)

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step in (None, 1):
            lo = T.IZERO if i.start is None else lift(i.start)
            k = T.intdiv(lo, T.const(self.width)) if hasattr(T, 'intdiv') else None
            for c in self._indices(lo):
                if same(T.mul(T.const(self.width), c), lo) and same(T.sub(lift(i.stop), lo), T.const(self.width)):
                    return Name1(self.names[c])
        raise Unsupported('part of a list of names')

    def _indices(self, lo):
        if T.num(lo) is not None:
            if T.num(lo) % self.width == 0:
                yield T.const(int(T.num(lo)) // self.width)
            return
        for x in T.subterms(lo):
            if x.kind == 'I' and x.op in ('var', 'app'):
                yield x


class Name1:
    def __init__(self, name):
        self.name = name

    def decode(self, *a):
        return self

    def strip(self, *a):
        return self.name

    rstrip = strip


class Names1(A.SymSeq):
    def __init__(self, names):
        A.SymSeq.__init__(self, names.dim, lambda k: Name1(names[k]))


# --------------------------------------------------------------------- writing
class Piece:
    """values of one type that follow each other in a file: an array of them, the
    position of the first and the loops that write it"""

    def __init__(self, form, arr, pos=None, ks=()):
        self.form, self.arr, self.pos, self.ks = form, arr, pos, tuple(ks)

    def width(self):
        return T.const(int(self.form[2:]))

    def length(self):
        n = self.width()
        for d in self.arr.lens:
            n = T.mul(n, lift(A.dimterm(d)))
        return n

    def terms(self):
        for t in [self.pos] + list(self.arr.a.ravel()):
            if isinstance(t, T.CTerm):
                yield t.re
                yield t.im
            elif isinstance(t, Term):
                yield t

    def subst(self, f, k, dim):
        return Piece(self.form, f(self.arr), f(self.pos), self.ks + ((k, dim),))

    def cells(self):
        """(position, value, [(index, length)]) of the values, by the place along the
        axes whose length is a number"""
        nd = len(self.arr.lens)
        for pos in np.ndindex(self.arr.a.shape):
            opts = [(T.IZERO, [], {})]
            for ax, d in enumerate(self.arr.lens):
                nxt = []
                for off, ix, m in opts:
                    if not isinstance(d, A.Dim):
                        nxt.append((T.add(T.mul(off, T.const(d)), T.const(pos[ax])), ix, m))
                        continue
                    fs = leaves(d)
                    # the index along the axis: one index per factor
                    parts = [(T.IZERO, [])]
                    for f in fs:
                        if isinstance(f, int):
                            parts = [(T.add(T.mul(o, T.const(f)), T.const(j)), l) for o, l in parts for j in range(f)]
                        else:
                            v = T.fresh('w', 'I')
                            parts = [(T.add(T.mul(o, f.term), v), l + [(v, f)]) for o, l in parts]
                    for o, l in parts:
                        e = o
                        syms = [f for f in fs if isinstance(f, A.Dim)]
                        if len(fs) == 2 and len(syms) == 2:
                            e = T.app(('pack', d.name), l[0][0], l[1][0], kind='I')
                        elif len(syms) > 1:
                            raise Unsupported('written axis of length %s' % d)
                        nxt.append((T.add(T.mul(off, d.term), o), ix + l, {**m, IX[nd - 1 - ax]: e}))
                opts = nxt
            for off, ix, m in opts:
                yield T.add(self.pos, T.mul(self.width(), off)), T.subst(self.arr.a[pos], m), list(self.ks) + ix


def leaves(d):
    """factors of an axis length, the numbers last"""
    if not isinstance(d, A.Dim):
        return [d]
    if d.factors is None:
        return [d]
    fs = [f for g in d.factors for f in leaves(g)]
    return [f for f in fs if isinstance(f, A.Dim)] + [f for f in fs if not isinstance(f, A.Dim)]


class Bytes:
    """bytes of pieces that follow each other"""

    def __init__(self, pieces):
        self.pieces = list(pieces)

    def __add__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        return Bytes(self.pieces + o.pieces)

    def __radd__(self, o):
        if isinstance(o, bytes) and not o:
            return self
        raise Unsupported('bytes')

    def symlen(self):
        n = T.IZERO
        for p in self.pieces:
            n = T.add(n, p.length())
        return n


def piece(x, form=None):
    x = A.asarr(x)
    if isinstance(x, A.SymMA):
        x = x.data
    form = form or x.wire or {'R': '<f8', 'I': '<i8', 'B': '|b1'}.get(x.kind)
    if form is None:
        raise Unsupported('written type')
    return Piece(form, SymArr(x.a.copy(), x.dims, x.kind))


def pack(fmt, *v):
    order, chars = (fmt[0], fmt[1:]) if fmt[:1] in '<>=!@' else ('=', fmt)
    order = {'!': '>', '=': '<', '@': '<'}.get(order, order)
    codes = []
    num = ''
    for c in chars:
        if c.isdigit():
            num += c
        elif c != ' ':
            codes += [c] * int(num or 1)
            num = ''
    if len(codes) != len(v):
        raise ValueError('pack expected %d items for packing' % len(codes))
    out = []
    for c, x in zip(codes, v):
        form = {'i': 'i4', 'l': 'i4', 'I': 'u4', 'f': 'f4', 'd': 'f8', 'q': 'i8'}.get(c)
        if form is None:
            raise Unsupported('struct format %s' % fmt)
        out.append(piece(x, order + form))
    return Bytes(out)


class WName:
    """a name of a list of names: its place in the list"""

    def __init__(self, term, width=None):
        self.term, self.w = term, width

    def ljust(self, n, fill=' '):
        if fill != ' ':
            raise Unsupported('padding')
        return WName(self.term, int(n))

    def encode(self, *a):
        if self.w is None:
            raise Unsupported('bytes of a name that is not padded')
        a = A._obj(())
        a[()] = self.term
        return Bytes([Piece('|S%d' % self.w, SymArr(a, (), 'I'))])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s of a name' % n)


class WFile:
    """a file that is written: every value goes behind the ones before"""

    def __init__(self, w):
        self.w = w
        self.pos = build((1,), lambda i: T.IZERO, 'I')
        self.closed = False
        self.log = []
        engine.S.files.append(self)

    def write(self, b):
        if not isinstance(b, Bytes):
            raise Unsupported('written %s' % type(b).__name__)
        for p in b.pieces:
            self._put(p)

    def tofile(self, x):
        self._put(piece(x))

    def _put(self, p):
        if self.closed:
            raise ValueError('write to closed file')
        o = self.pos.a[0]
        self.log.append(Piece(p.form, p.arr, o))
        self.pos[0] = T.add(o, p.length())

    def tell(self):
        return self.pos.a[0]

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # what the file holds
    def at(self, o, form, free=()):
        """the value at a position; free: the (lengths and) indices in the position"""
        import itertools
        o = lift(o)
        found = []
        for p in self.log:
            if p.form != form:
                continue
            for q, v, ks in p.cells():
                cands = [[(k, i) for d, i in free if d is dk] for k, dk in ks]
                for c in itertools.product(*cands):
                    m = dict(c)
                    if same(T.subst(q, m), o):
                        found.append(T.subst(v, m))
                        break
        if len(found) != 1:
            return None
        return found[0]


WFile.__module__ = 'types'


class VPath:
    """pathlib.Path of a virtual file"""

    def __init__(self, file):
        self.file = file

    def expanduser(self):
        return self

    absolute = resolve = expanduser

    def exists(self):
        return True

    is_file = exists

    def open(self, mode='r', *a, **k):
        if mode != ('wb' if isinstance(self.file, WFile) else 'rb'):
            raise Unsupported('file mode %s' % mode)
        return self.file

    def stat(self):
        import types
        return types.SimpleNamespace(st_size=self.file.size)

    def __str__(self):
        return 'file'


VPath.__module__ = 'types'


def fromfile(fid, dtype=float, count=-1, sep='', offset=0, **k):
    f = getattr(fid, 'fromfile', None)
    if f is None:
        return np.fromfile(fid, dtype=dtype, count=count, sep=sep, offset=offset)
    if offset:
        fid.seek(offset, 1)
    return f(dtype, count)
