"""Contracts: written once, run in two worlds.

In the symbolic world (class Sym) the inputs are symbolic values, the code of
/repo runs under the engine, callees under contract are replaced by their
contracts, and every `eq`/`true` is a proof obligation.  In the concrete world
(class Conc) the same contract runs the unmodified code of /repo on numbers:
that is the replay of counterexamples and the search for failing inputs.
"""
import random
import math
import os
import sys
import time
import traceback

REGISTRY = []


class Contract:
    def __init__(self, prop, name, fn, functions, params, bounded, trials, doc, sym_timeout, tol, known, assumes=()):
        self.assumes = list(assumes)
        self.prop, self.name, self.fn = prop, name, fn
        self.functions = functions
        self.params = params
        self.bounded = bounded
        self.trials = trials
        self.doc = doc
        self.sym_timeout = sym_timeout
        self.tol = tol
        self.known = known

    def instances(self):
        if not self.params:
            yield self.name, {}
            return
        for p in self.params:
            yield self.name + '[' + ','.join('%s=%s' % kv for kv in sorted(p.items())) + ']', p


def contract(prop, name, functions=(), params=None, bounded=False, trials=6, timeout=120, tol=1e-7, known=(), assumes=()):
    """register a contract.  bounded=True: only checked natively on the
    stated bound (never counted as proved)"""
    props = prop if isinstance(prop, (list, tuple)) else [prop]

    def deco(f):
        for p in props:
            REGISTRY.append(Contract(p, name, f, list(functions), params, bounded, trials,
                                     (f.__doc__ or '').strip(), timeout, tol, known, assumes))
        return f
    return deco


def product(**kw):
    out = [{}]
    for k, vs in kw.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


def resolve(path):
    """dotted path to (owner object, attribute name)"""
    import importlib
    parts = path.split('.')
    for i in range(len(parts) - 1, 0, -1):
        try:
            m = importlib.import_module('.'.join(parts[:i]))
        except ImportError:
            continue
        o = m
        for p in parts[i:-1]:
            o = getattr(o, p)
        return o, parts[-1]
    raise ImportError(path)


class Obligation:
    __slots__ = ('label', 'goal', 'hyps', 'where', 'nonneg')

    def __init__(self, label, goal, hyps, where='', nonneg=()):
        self.label, self.goal, self.hyps, self.where, self.nonneg = label, goal, hyps, where, nonneg


class Reject(Exception):
    """concrete inputs outside the precondition"""


# ---------------------------------------------------------------- symbolic
class Sym:
    symbolic = True
    _ids = {}

    def __init__(self):
        from . import npproxy, terms, arr
        self.np = npproxy.PROXY
        self.T, self.A = terms, arr
        from . import prove
        arr.SORTED.clear()
        # declarations of another path or instance
        BOUNDS.clear()
        OPAQUE.clear()
        prove._factc.clear()
        self.dims = {}
        self.obls = []
        self.restore = []
        self.nonneg_ids = set()
        self.inputs = []
        self.stubs = set()

    # inputs
    def dim(self, name, lo=2, hi=6):
        from . import engine
        if name in self.dims:
            return self.dims[name]
        d = self.dims[name] = self.A.Dim(name)
        engine.assume(self.T.le(self.T.const(2), d.term))
        return d

    def axis(self, name, dim, lo=None, hi=None, gap=(0.05, 2.0)):
        """strictly increasing coordinates"""
        x = self.array(name, (dim,), lo=lo, hi=hi)
        self.A.SORTED[name] = dim
        return x

    def bracket(self, name, v):
        """the cell of the axis that contains v"""
        A = self.A
        return A.asarr(v).map(lambda e: A.bracket(name, e), 'I')

    def size(self, d):
        return d.term if isinstance(d, self.A.Dim) else d

    def real(self, name, lo=None, hi=None, special=(), open=False, kind='R'):
        v = self.T.var(name, kind)
        self._bounds(v, lo, hi, open)
        return v

    def integer(self, name, lo=None, hi=None, special=()):
        v = self.T.var(name, 'I')
        self._bounds(v, lo, hi, False)
        return v

    def boolean(self, name):
        return self.T.var(name, 'B')

    def _bounds(self, v, lo, hi, open):
        from . import engine
        T = self.T
        if lo is not None:
            lo = T.lift(lo)
            engine.assume(T.lt(lo, v) if open else T.le(lo, v))
            if T.num(lo) is not None and T.num(lo) >= 0:
                self.nonneg_ids.add(v.id)
        if hi is not None:
            engine.assume(T.lt(v, T.lift(hi)) if open else T.le(v, T.lift(hi)))

    def array(self, name, shape, kind='R', lo=None, hi=None, special=(), open=False, nan=False, whole=True):
        """array whose elements are arbitrary (within the bounds)"""
        A, T = self.A, self.T
        from . import npproxy, engine
        if nan:
            npproxy.NANABLE.add(name)
        shape = tuple(shape)
        lens = tuple(A.dimof(s) for s in shape)
        nd = len(lens)
        a = A._obj(A.phys(lens))
        import numpy as np
        ixs = [A.IX[nd - 1 - ax] for ax in range(nd) if isinstance(lens[ax], A.Dim)]
        for pos in np.ndindex(a.shape):
            sub = tuple(p for p, l in zip(pos, lens) if not isinstance(l, A.Dim))
            nm = name if not sub else name + '_' + '_'.join(map(str, sub))
            if kind == 'C':
                a[pos] = T.CTerm(self._el(nm + '.re', ixs, 'R', lo, hi, open), self._el(nm + '.im', ixs, 'R', lo, hi, open))
            else:
                a[pos] = self._el(nm, ixs, kind, lo, hi, open)
        return A.SymArr(a, A.dims_of(lens), kind)

    def _el(self, nm, ixs, kind, lo, hi, open):
        T = self.T
        if not ixs:
            v = T.var(nm, kind)
        else:
            v = T.app(nm, *ixs, kind=kind)
            BOUNDS[nm] = (lo, hi, open)
        if not ixs and (lo is not None or hi is not None):
            self._bounds(v, lo, hi, open)
        elif lo is not None and lo >= 0:
            self.nonneg_ids.add(v.id)
        return v

    def masked(self, name, shape, kind='R', lo=None, hi=None):
        d = self.array(name, shape, kind, lo, hi)
        m = self.array(name + '.mask', shape, 'B')
        return self.A.SymMA(d.a, d.dims, d.kind, m)

    def scalar_or_array(self, name, shape, **kw):
        return self.real(name, **kw) if shape is None else self.array(name, shape, **kw)

    def names(self, label, dim, table, distinct=False):
        """a list of symbolic length whose elements are names of the table"""
        return NameSeq(label, dim, list(table))

    def opaque_seq(self, label, dim):
        A, T = self.A, self.T
        return A.SymSeq(dim, lambda k: A.Opaque(T.app(('id', label), k, kind='I'), label))

    def opaque_names(self, label, dim, cls):
        """names that are known by their place in the list only"""
        A, T = self.A, self.T
        if not isinstance(dim, A.Dim):
            return [cls(T.const(k)) for k in range(dim)]
        return A.SymSeq(dim, cls)

    def assume(self, c):
        from . import engine
        A = self.A
        if isinstance(c, A.SymArr):
            for e in c.a.ravel():
                engine.assume(e)
        else:
            engine.assume(c)

    def differ(self, a, b):
        """precondition: two dimensions are different"""
        from . import engine
        T, A = self.T, self.A
        t = lambda d: d.term if isinstance(d, A.Dim) else T.const(d)
        engine.assume(T.not_(T.eq(t(a), t(b))))

    def random_ints(self, *a):
        raise NotImplementedError

    # code
    def get(self, path):
        o, n = resolve(path)
        return getattr(o, n)

    def stub(self, path, f):
        o, n = resolve(path)
        self.stubs.add(path)
        self.restore.append((o, n, o.__dict__.get(n, None) if isinstance(o, type) else getattr(o, n)))
        if callable(f) and hasattr(f, '__dict__'):
            f._vc_stub = True
        setattr(o, n, f)

    patch = stub

    def close(self):
        for o, n, v in reversed(self.restore):
            setattr(o, n, v)
        self.restore = []

    def reindexed(self, x, dim, name):
        """the last axis of a matrix taken at indices given by an uninterpreted
        function of the position along dim"""
        A, T = self.A, self.T
        m = {A.IX[0]: T.app(name, A.IX[0], kind='I')}
        g = lambda y: A.SymArr(A.rename(y.a, m), (y.dims[0], A.dimof(dim)), y.kind)
        if isinstance(x, A.SymMA):
            d, k = g(x.data), x.mask
            return A.SymMA(d.a, d.dims, d.kind, k if k is A.nomask else g(k), x._fv)
        return g(x)

    def uf(self, name, *args, kind='R', lo=None, hi=None, opaque=False):
        """uninterpreted function of scalars or arrays (elementwise), whose
        values are not below lo or above hi"""
        A, T = self.A, self.T
        if lo is not None or hi is not None:
            BOUNDS[name] = (lo, hi, False)
        if opaque:
            OPAQUE.add(name)
        import functools
        args = [T.toreal(a.term) if type(a).__name__ in ('SymName', 'Opaque') else a for a in args]
        arrs = [A.asarr(a) for a in args]
        if all(x.ndim == 0 for x in arrs):
            es = [x.a[()] for x in arrs]
            return self._uf1(name, es, kind)
        lens = A.broadcast_lens(*[x.lens for x in arrs])
        arrs = [A.broadcast_to(x, lens) for x in arrs]
        out = A._obj(A.phys(lens))
        import numpy as np
        for pos in np.ndindex(out.shape):
            out[pos] = self._uf1(name, [x.a[pos] for x in arrs], kind)
        return A.SymArr(out, A.dims_of(lens), kind)

    def _uf1(self, name, es, kind):
        T = self.T
        args = []
        for e in es:
            if isinstance(e, T.CTerm):
                args += [e.re, e.im]
            elif isinstance(e, (str,)) or e is None:
                name = (name, e)
            else:
                e = T.lift(e)
                args.append(e if e.kind == 'I' else T.toreal(T.b2i(e)))
        if name in OPAQUE and args and kind != 'C':
            # f(c ? a : b) = c ? f(a) : f(b) in the first argument
            rest = args[1:]

            def cases(t):
                if t.op == 'ite':
                    return T.ite(t.args[0], cases(t.args[1]), cases(t.args[2]))
                if t.op == 'add' and t.args[0].op == 'ite' and T.num(t.args[1]) is not None:
                    c, a, b = t.args[0].args
                    return T.ite(c, cases(T.add(a, t.args[1])), cases(T.add(b, t.args[1])))
                return T.app(name, t, *rest, kind=kind)
            return cases(args[0])
        if kind == 'C':
            return T.CTerm(T.app((name, 're'), *args), T.app((name, 'im'), *args))
        return T.app(name, *args, kind=kind) if args else T.var(str(name), kind)

    # specification helpers
    def ite(self, c, a, b):
        return self.A.where(c, a, b) if any(isinstance(x, self.A.SymArr) for x in (c, a, b)) else self.T.ite(self.T.lift(c), a, b)

    def sum(self, x, axis):
        return self.A.reduce_(self.A.asarr(x), 'sum', axis, False)

    def any(self, x, axis):
        return self.A.reduce_(self.A.asarr(x), 'any', axis, False)

    def const(self, x):
        """exact decimal constant (pass a string)"""
        from .rt import lit
        return lit(str(x))

    def arr(self, x):
        return self.A.asarr(x)

    def data(self, x):
        return x.data if isinstance(x, self.A.SymMA) else x

    def mask(self, x):
        return self.A.getmaskarray(x)

    def is_masked_type(self, x):
        return isinstance(x, self.A.SymMA)

    def floor(self, x):
        return self.np.floor(x)

    def indices(self, seq):
        """array of the table positions of a list of names"""
        A = self.A
        if isinstance(seq, (list, tuple)):
            ids = Sym.__dict__['_ids']
            return A.asarr([ids.setdefault(str(c), 1000 + len(ids)) for c in seq])
        a = A._obj((1,))
        a[0] = seq.elem(A.IX[0]).term
        return A.SymArr(a, (seq.dim,), 'I')

    def columns(self, seq, f, kind='R'):
        """array of f(name) over a list of names (f is a contract stub)"""
        A, T = self.A, self.T
        if isinstance(seq, (list, tuple)):
            return A.asarr([T.lift(f(c)) for c in seq])
        a = A._obj((1,))
        a[0] = T.lift(f(seq.elem(A.IX[0])))
        return A.SymArr(a, (seq.dim,), kind)

    def table(self, seq, f, kind='R'):
        """array of f(name) over a list of names; f is evaluated for every
        entry of the table"""
        A, T = self.A, self.T
        vs = [T.lift(f(n)) for n in seq.table]
        i = seq.index(A.IX[0])
        r = vs[-1]
        for j in reversed(range(len(vs) - 1)):
            r = T.ite(T.eq(i, T.const(j)), vs[j], r)
        a = A._obj((1,))
        a[0] = r
        return A.SymArr(a, (seq.dim,), kind)

    def snapshot(self, *xs):
        return [(x, x.copy()) for x in xs]

    def unchanged(self, label, snap):
        A = self.A
        for n, (x, old) in enumerate(snap):
            self.eq('%s unchanged (argument %d)' % (label, n), self.data(x), self.data(old))
            if isinstance(x, A.SymMA):
                self.eq('%s unchanged (mask of argument %d)' % (label, n), A.getmaskarray(x), A.getmaskarray(old))

    # obligations
    def _hyps(self, lens):
        A, T = self.A, self.T
        from . import engine
        h = list(engine.pc())
        nd = len(lens)
        for ax, l in enumerate(lens):
            if isinstance(l, A.Dim):
                ix = A.IX[nd - 1 - ax]
                h += [T.le(T.IZERO, ix), T.lt(ix, l.term)]
        return h

    def shape_eq(self, label, a, shape):
        A = self.A
        lens = A.asarr(a).lens
        want = tuple(s if isinstance(s, A.Dim) else A.dimof(s) for s in shape)
        ok = lens == want
        self.obls.append(Obligation(label + ' (shape)', ok, [], 'shape %s, expected %s' % (lens, want)))
        return ok

    def eq(self, label, a, b, where=None, tol=None, scale=None):
        A, T = self.A, self.T
        if a is A.masked or b is A.masked:
            self.obls.append(Obligation(label, False, [], 'masked constant'))
            return
        a = A.asarr(a.data if isinstance(a, A.SymMA) else a)
        b = A.asarr(b.data if isinstance(b, A.SymMA) else b)
        if a.lens != b.lens:
            self.obls.append(Obligation(label + ' (shape)', False, [], 'shape %s, expected %s' % (a.lens, b.lens)))
            return
        h = self._hyps(a.lens)
        import numpy as np
        w = None
        if where is not None:
            w = A.broadcast_to(A.asarr(where), a.lens)
        for pos in np.ndindex(a.a.shape):
            x, y = a.a[pos], b.a[pos]
            hh = h
            if w is not None:
                c = T.tobool(w.a[pos])
                if c is T.FALSE:
                    continue
                hh = h + [c]
            lab = label + (str(list(pos)) if a.a.size > 1 else '')
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                self.obls.append(Obligation(lab, x == y, [], '%r / %r' % (x, y)))
                continue
            x, y = T.lift(x), T.lift(y)
            if isinstance(x, T.CTerm) or isinstance(y, T.CTerm):
                x = x if isinstance(x, T.CTerm) else T.CTerm(x, T.ZERO)
                y = y if isinstance(y, T.CTerm) else T.CTerm(y, T.ZERO)
                self._add(lab + '.re', x.re, y.re, hh)
                self._add(lab + '.im', x.im, y.im, hh)
            else:
                self._add(lab, x, y, hh)

    def _add(self, label, x, y, h):
        T = self.T
        if x is T.NAN or y is T.NAN:
            self.obls.append(Obligation(label, x is y, h, 'nan'))
            return
        if x.kind == 'B' and y.kind != 'B':
            x = T.b2i(x)
        if y.kind == 'B' and x.kind != 'B':
            y = T.b2i(y)
        if x.kind == 'B':
            g = T.TRUE if x is y else (BoolEq(x, y))
            self.obls.append(Obligation(label, g, h, '', self.nonneg_ids))
            return
        self.obls.append(Obligation(label, T.eq(x, y) if x is not y else T.TRUE, h, '', self.nonneg_ids))

    def true(self, label, c, where=None, tol=None):
        A, T = self.A, self.T
        if isinstance(c, bool):
            self.obls.append(Obligation(label, c, []))
            return
        c = A.asarr(c.data if isinstance(c, A.SymMA) else c)
        h = self._hyps(c.lens)
        import numpy as np
        w = A.broadcast_to(A.asarr(where), c.lens) if where is not None else None
        for pos in np.ndindex(c.a.shape):
            if w is not None and T.tobool(w.a[pos]) is T.FALSE:
                continue
            hh = h if w is None else h + [T.tobool(w.a[pos])]
            self.obls.append(Obligation(label + (str(list(pos)) if c.a.size > 1 else ''), T.tobool(c.a[pos]), hh, '', self.nonneg_ids))

    # inequalities with a tolerance in the concrete world
    def le(self, label, a, b, where=None, tol=1e-9):
        self.true(label, self.A.ew2(self.T.le, a, b), where)

    def lt(self, label, a, b, where=None):
        self.true(label, self.A.ew2(self.T.lt, a, b), where)

    def raises(self, label, excs, f):
        from .terms import Unsupported
        from . import engine
        try:
            f()
        except (Unsupported, engine.Infeasible):
            raise
        except excs:
            self.obls.append(Obligation(label, True, []))
            return
        self.obls.append(Obligation(label, False, [], 'no exception'))

    def note(self, s):
        pass


class BoolEq:
    """goal: two boolean terms are equivalent"""

    def __init__(self, x, y):
        self.x, self.y = x, y


BOUNDS = {}
OPAQUE = set()      # functions whose values are first treated as arbitrary


class NameSeq:
    """list of symbolic length; every element is a name of a finite table"""
    symiter = True

    def __init__(self, label, dim, table):
        self.label, self.dim, self.table = label, dim, table

    def symlen(self):
        return self.dim.term

    def elem(self, k):
        from . import engine, terms as T
        return engine.SymName(self.index(T.lift(k)), self.table)

    def __getitem__(self, k):
        if isinstance(k, slice) and k == slice(None):
            return self
        return self.elem(k)

    def __iter__(self):
        from .terms import Unsupported
        raise Unsupported('iteration over a list of symbolic length outside a loop statement')

    def __len__(self):
        from .terms import Unsupported
        raise Unsupported('len of a list of symbolic length through C code')

    def contains(self, x):
        from . import terms as T
        if x not in self.table:
            return T.FALSE
        b = T.bindvar(self.dim, [])
        return T.bexists(self.dim, b, T.eq(self.index(b), T.const(self.table.index(x))))

    def index(self, k):
        from . import terms as T
        return T.app(('which', self.label), k, kind='I')

    def __copy__(self):
        return self


# ---------------------------------------------------------------- concrete
WHOLE = bool(os.environ.get('PYVC_WHOLE'))


class Fail(Exception):
    def __init__(self, label, detail):
        Exception.__init__(self, label + ': ' + detail)
        self.label, self.detail = label, detail


class Conc:
    symbolic = False

    def __init__(self, seed, hints=None, tol=1e-7):
        import numpy as np
        self.np = np
        self.rng = random.Random(seed)
        self.hints = hints or {}
        self.search = hints is not None
        self.log = {}
        self.dims = {}
        self.dims_big = False
        self.restore = []
        self.tol = tol
        self.checked = 0
        # in some runs, numbers are given as integers where they may be
        self.whole = random.Random(seed * 7919 + 13)
        self.whole_run = WHOLE or self.whole.random() < 0.125

    def _whole(self, v, lo, hi, open, special):
        """integers near numbers, in their range"""
        import numpy as np
        if not self.whole_run or self.whole.random() < 0.4:
            return v
        a = -math.inf if lo is None else lo
        b = math.inf if hi is None else hi
        r = np.clip(np.round(v), np.ceil(a), np.floor(b))
        if not np.all(np.abs(r) < 2.0 ** 53) or np.any(r < a) or np.any(r > b) or (open and np.any((r == a) | (r == b))):
            return v
        if b - a < 2 and not (special and all(float(s).is_integer() for s in special)):
            return v
        return r.astype(np.int64) if isinstance(v, np.ndarray) else int(r)

    def differ(self, a, b):
        if a == b:
            raise Reject

    def _log(self, name, v):
        import numpy as np
        try:
            self.log[name] = v.tolist() if isinstance(v, np.ndarray) and v.dtype.kind != 'c' else (repr(v) if not isinstance(v, (int, float, str, list, bool)) else v)
        except Exception:
            self.log[name] = repr(v)

    def dim(self, name, lo=2, hi=6):
        if name in self.dims:
            return self.dims[name]
        v = self.dims[name] = self._dim(name, lo, hi)
        return v

    def _dim(self, name, lo, hi):
        h = self.hints.get(name)
        x = self.rng.random()
        whole = [int(c) for c in self.hints.get('const') or () if float(c).is_integer() and 1 <= c <= 4100]
        ints, big = [c for c in whole if c <= 60], [c for c in whole if c > 60]
        if isinstance(h, (int, float)) and lo <= h <= 60 and x < 0.3:
            v = int(h)
        elif self.search and big and x < 0.4 and not self.dims_big:
            # one axis at a time beyond a large number of the code
            self.dims_big = True
            v = max(lo, self.rng.choice(big) + self.rng.choice([-1, 0, 1, 2, 7]))
        elif self.search and ints and x < 0.5:
            v = max(lo, self.rng.choice(ints) + self.rng.randint(-1, 2))
        elif self.search and x < 0.6:
            v = self.rng.randint(lo, 3 * hi)
        else:
            v = self.rng.randint(lo, hi)
        self.log[name] = v
        return v

    def _sample(self, lo, hi, special, kind='R'):
        r = self.rng
        a = -10.0 if lo is None and hi is None else (lo if lo is not None else hi - 20.0)
        b = 10.0 if lo is None and hi is None else (hi if hi is not None else lo + 20.0)
        a, b = float(a), float(b)
        x = r.random()
        if special and x < 0.35:
            v = r.choice(list(special))
            if x < 0.06:
                v = v + r.choice([-1, 1]) * 10.0 ** r.uniform(-9, -2)
                v = min(max(v, a), b) if not (v < a or v > b) else r.choice(list(special))
            return v
        if self.hints.get('const') and x < 0.6:
            v = r.choice(self.hints['const'])
            y = r.random()
            if y < 0.4:
                v = v + r.choice([-1, 1]) * 10.0 ** r.uniform(-6, 0)
            if a <= v <= b:
                return v
        if x > 0.93:
            return r.choice([a, b])
        if x > 0.86:
            v = float(round(r.uniform(a, b)))
            return min(max(v, a), b)
        return r.uniform(a, b)

    def real(self, name, lo=None, hi=None, special=(), open=False, kind='R'):
        if name in self.hints and isinstance(self.hints[name], (int, float)) and self.rng.random() < 0.7:
            v = float(self.hints[name])
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                v = self._sample(lo, hi, special)
        else:
            for _ in range(50):
                v = self._sample(lo, hi, special)
                if not (open and (v == lo or v == hi)):
                    break
        v = self._whole(v, lo, hi, open, special)
        self.log[name] = v
        return v

    def integer(self, name, lo=None, hi=None, special=()):
        h = self.hints.get(name)
        if isinstance(h, (int, float)) and self.rng.random() < 0.7 and (lo is None or h >= lo) and (hi is None or h <= hi):
            v = int(h)
        elif special and self.rng.random() < 0.3:
            v = self.rng.choice(list(special))
        else:
            v = self.rng.randint(-10 if lo is None else lo, 10 if hi is None else hi)
        self.log[name] = v
        return v

    def boolean(self, name):
        v = self.rng.random() < 0.5
        self.log[name] = v
        return v

    def array(self, name, shape, kind='R', lo=None, hi=None, special=(), open=False, nan=False, whole=True):
        np = self.np
        shape = tuple(int(s) for s in shape)
        n = int(np.prod(shape)) if shape else 1

        def one(nm, j):
            if kind == 'B':
                return self.rng.random() < 0.4
            if kind == 'I':
                return self.rng.randint(-10 if lo is None else lo, 10 if hi is None else hi)
            h = self.hints.get(nm)
            if isinstance(h, (int, float)) and self.rng.random() < 0.5 and (lo is None or h >= lo) and (hi is None or h <= hi):
                return float(h)
            if nan and self.rng.random() < 0.3:
                return float('nan')
            for _ in range(50):
                v = self._sample(lo, hi, special)
                if not (open and (v == lo or v == hi)):
                    return v
            return v
        if kind == 'C':
            v = np.array([complex(one(name + '.re', j), one(name + '.im', j)) for j in range(n)])
        else:
            v = np.array([one(name, j) for j in range(n)], dtype={'R': float, 'I': int, 'B': bool}[kind])
            if kind == 'R' and not nan and whole and len(shape) == 1:
                # positions, times and the like
                v = self._whole(v, lo, hi, open, special)
        v = v.reshape(shape)
        self._log(name, v)
        return v

    def masked(self, name, shape, kind='R', lo=None, hi=None):
        d = self.array(name, shape, kind, lo, hi)
        m = self.array(name + '.mask', shape, 'B')
        return self.np.ma.array(d, mask=m)

    def scalar_or_array(self, name, shape, **kw):
        return self.real(name, **kw) if shape is None else self.array(name, shape, **kw)

    def names(self, label, dim, table, distinct=False):
        t = list(table)
        if distinct:
            if dim > len(t):
                raise Reject
            self.rng.shuffle(t)
            v = t[:dim]
        else:
            v = [self.rng.choice(t) for _ in range(dim)]
        self.log[label] = v
        return v

    def opaque_seq(self, label, dim):
        raise NotImplementedError

    def assume(self, c):
        import numpy as np
        if not np.all(c):
            raise Reject()

    def get(self, path):
        o, n = resolve(path)
        return getattr(o, n)

    def axis(self, name, dim, lo=None, hi=None, gap=(0.05, 2.0)):
        np = self.np
        r = self.rng
        if r.random() < 0.5:
            d = np.full(dim, r.choice([0.25, 0.5, 1.0, r.uniform(*gap)]))
        else:
            d = np.array([r.uniform(*gap) for _ in range(dim)])
        x0 = r.choice([0.0, -5.0, r.uniform(-20, 20) if lo is None else r.uniform(lo, lo + 0.3 * (hi - lo))])
        x = x0 + np.cumsum(d) - d[0]
        if lo is not None and (x[0] < lo or x[-1] > hi):
            x = lo + (hi - lo) * (np.arange(dim) + 1.0) / (dim + 1.0)
        self.axes = getattr(self, 'axes', {})
        self.axes[name] = x
        self._log(name, x)
        return x.copy()

    def bracket(self, name, v):
        x = self.axes[name]
        return self.np.clip(self.np.searchsorted(x, v, side='right') - 1, 0, len(x) - 2)

    def size(self, d):
        return d

    def stub(self, path, f):
        pass

    def patch(self, path, f):
        """replace a dependency in the native run too"""
        o, n = resolve(path)
        self.restore.append((o, n, getattr(o, n)))
        setattr(o, n, f)

    def close(self):
        for o, n, v in reversed(self.restore):
            setattr(o, n, v)
        self.restore = []

    def uf(self, *a, **k):
        raise NotImplementedError

    def ite(self, c, a, b):
        r = self.np.where(c, a, b)
        return r

    def sum(self, x, axis):
        return self.np.sum(x, axis=axis)

    def any(self, x, axis):
        return self.np.any(x, axis=axis)

    def const(self, x):
        return float(x)

    def arr(self, x):
        return self.np.asarray(x)

    def data(self, x):
        return x.data if isinstance(x, self.np.ma.MaskedArray) else x

    def mask(self, x):
        return self.np.ma.getmaskarray(x)

    def is_masked_type(self, x):
        return isinstance(x, self.np.ma.MaskedArray)

    def floor(self, x):
        return self.np.floor(x)

    def columns(self, seq, f, kind='R'):
        return self.np.array([f(n) for n in seq])

    table = columns

    def snapshot(self, *xs):
        return [(x, x.copy()) for x in xs]

    def unchanged(self, label, snap):
        np = self.np
        for n, (x, old) in enumerate(snap):
            self.eq('%s unchanged (argument %d)' % (label, n), self.data(x), self.data(old), tol=0)
            if isinstance(x, np.ma.MaskedArray):
                self.eq('%s unchanged (mask of argument %d)' % (label, n), np.ma.getmaskarray(x), np.ma.getmaskarray(old))

    def shape_eq(self, label, a, shape):
        self.checked += 1
        s = self.np.shape(a)
        if tuple(s) != tuple(shape):
            raise Fail(label + ' (shape)', 'shape %s, expected %s' % (s, tuple(shape)))
        return True

    def eq(self, label, a, b, where=None, tol=None, scale=None):
        np = self.np
        self.checked += 1
        tol = self.tol if tol is None else tol
        if isinstance(a, np.ma.MaskedArray):
            a = a.data
        if isinstance(b, np.ma.MaskedArray):
            b = b.data
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Fail(label + ' (shape)', 'shape %s, expected %s' % (a.shape, b.shape))
        if a.dtype.kind in 'OUS' or b.dtype.kind in 'OUS':
            if not np.array_equal(a, b):
                raise Fail(label, 'got %r, expected %r' % (a, b))
            return
        a = a.astype(complex) if a.dtype.kind == 'c' or b.dtype.kind == 'c' else a.astype(float)
        b = b.astype(a.dtype)
        both_nan = np.isnan(a) & np.isnan(b)
        with np.errstate(all='ignore'):
            sc = 1.0 if scale is None else scale
            bad = ~(np.abs(a - b) <= tol * (sc + np.abs(b))) & ~both_nan & ~(a == b)
        if where is not None:
            bad = bad & np.broadcast_to(where, bad.shape)
        if np.any(bad):
            i = tuple(int(x[0]) for x in np.nonzero(bad)) if bad.ndim else ()
            raise Fail(label, 'at %s got %r, expected %r' % (i, a[i], b[i]))

    def true(self, label, c, where=None, tol=None):
        np = self.np
        self.checked += 1
        c = np.asarray(c)
        if where is not None:
            c = c | ~np.broadcast_to(where, c.shape)
        if not np.all(c):
            i = tuple(int(x[0]) for x in np.nonzero(~c)) if c.ndim else ()
            raise Fail(label, 'false at %s' % (i,))

    def le(self, label, a, b, where=None, tol=1e-9):
        np = self.np
        a, b = np.asarray(a), np.asarray(b)
        self.true(label, a <= b + tol * (1 + np.abs(b)), where)

    def lt(self, label, a, b, where=None):
        np = self.np
        self.true(label, np.asarray(a) <= np.asarray(b) + 1e-9 * (1 + np.abs(b)), where)

    def raises(self, label, excs, f):
        self.checked += 1
        try:
            f()
        except excs:
            return
        raise Fail(label, 'no exception')

    def note(self, s):
        pass
