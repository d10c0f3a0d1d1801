"""Path enumeration, branch decisions and the loop rule."""
import numpy as np
from . import terms as T
from . import arr as A
from .terms import Term, CTerm, Unsupported, lift
from .arr import SymArr, SymMA, SymSeq, IX


class Infeasible(Exception):
    pass


class Frame:
    def __init__(self, kind, local=()):
        self.kind = kind
        self.prefix = []       # decisions to replay
        self.pos = 0
        self.trail = []        # [term, value, other_feasible]
        self.local = set(local)


class State:
    def __init__(self):
        self.frames = []
        self.assume = []       # preconditions / facts (terms)
        self.known = {}        # term id -> bool, decided
        self.loops = 0
        self.side = []
        self.files = []        # files that are written
        self.budget = 2000
        self.stats = dict(decisions=0, feas=0)


S = State()


def reset_path():
    S.known = {}
    S.assume = []
    S.loops = 0
    S.side = []
    S.files = []
    T._fresh[0] = 0


def side(label, goal, hyps):
    """an obligation of the operation that is executed"""
    if goal is T.TRUE or not S.frames:
        return
    h = pc() + list(hyps)
    k = (goal.id, frozenset(x.id for x in h))
    if all(k != o[0] for o in S.side):
        S.side.append((k, label, goal, h))


def pc():
    out = list(S.assume)
    for f in S.frames:
        for t, v, _ in f.trail:
            out.append(t if v else T.not_(t))
    return out


def assume(t):
    t = T.tobool(lift(t))
    if t is T.TRUE:
        return
    S.assume.append(t)
    note(t, True)


def note(t, v):
    S.known[t.id] = v
    n = T.not_(t)
    S.known[n.id] = not v
    if v and t.op == 'and':
        for a in t.args:
            note(a, True)
    if not v and t.op == 'or':
        for a in t.args:
            note(a, False)


def lookup(t):
    """syntactic consequence of what is known"""
    k = S.known.get(t.id)
    if k is not None:
        return k
    if t.op == 'not':
        k = lookup(t.args[0])
        return None if k is None else not k
    if t.op == 'and':
        a, b = lookup(t.args[0]), lookup(t.args[1])
        if a is False or b is False:
            return False
        if a and b:
            return True
    if t.op == 'or':
        a, b = lookup(t.args[0]), lookup(t.args[1])
        if a or b:
            return True
        if a is False and b is False:
            return False
    return None


def decide(t):
    """branch on a boolean term"""
    if t is T.TRUE:
        return True
    if t is T.FALSE:
        return False
    if not S.frames:
        raise Unsupported('branch on a symbolic condition outside a verification run: %s' % T.show(t)[:160])
    k = lookup(t)
    if k is not None:
        return k
    fv = T.freevars(t)
    fr = S.frames[0]
    for f in S.frames[1:]:
        if f.local & fv:
            fr = f
    if fr.pos < len(fr.prefix):
        v, other = fr.prefix[fr.pos]
        fr.pos += 1
        fr.trail.append((t, v, other))
        note(t, v)
        return v
    S.stats['decisions'] += 1
    if len(fr.trail) > 400 or S.stats['decisions'] > S.budget:
        raise Unsupported('too many branches')
    from . import prove
    ft = prove.feasible(pc(), t)
    ff = prove.feasible(pc(), T.not_(t))
    if not ft and not ff:
        raise Infeasible()
    v = ft
    fr.pos += 1
    fr.prefix.append((v, ft and ff))
    fr.trail.append((t, v, ft and ff))
    note(t, v)
    return v


def next_prefix(fr):
    """decisions of the next path of a frame, or None"""
    tr = list(fr.trail)
    while tr:
        t, v, other = tr.pop()
        if other and v:
            # explored True; now False
            return [(x[1], x[2]) for x in tr] + [(False, False)]
    return None


class PathResult:
    def __init__(self, value, exc, pc, known, assume):
        self.value, self.exc, self.pc, self.known, self.assume = value, exc, pc, known, assume


def run_paths(f, limit=400):
    """every path of f(); yields PathResult.  f is re-executed from scratch
    for each path"""
    prefix = []
    n = 0
    S.stats['decisions'] = 0
    while prefix is not None:
        n += 1
        if n > limit:
            raise Unsupported('more than %d paths' % limit)
        reset_path()
        fr = Frame('top')
        fr.prefix = prefix
        S.frames = [fr]
        A._writes.clear()
        exc = None
        val = None
        infeasible = False
        try:
            val = f()
        except Infeasible:
            infeasible = True
        except Unsupported:
            S.frames = []
            raise
        except RecursionError:
            S.frames = []
            raise Unsupported('recursion')
        except Exception as e:      # an exception raised by the code under verification
            exc = e
        p = pc() if len(S.frames) == 1 else pc()
        if not infeasible:
            yield PathResult(val, exc, p, dict(S.known), list(S.assume))
        prefix = next_prefix(fr)
        S.frames = []


# ------------------------------------------------------------------ sequences
class SymName:
    """a name drawn from a finite table: entry number `term` of the table.
    Comparisons branch (or give a condition); anything else picks the entry"""
    __array_ufunc__ = None

    def __init__(self, term, table):
        self.term, self.table = term, table

    def cond(self, names):
        js = [j for j, s in enumerate(self.table) if s in names]
        r = T.FALSE
        if len(js) == len(self.table):
            return T.TRUE
        for j in js:
            r = T.lor(r, T.eq(self.term, T.const(j)))
        return r

    def isin(self, names):
        if isinstance(names, str):
            return decide(self.cond([s for s in self.table if s in names]))
        return decide(self.cond([n for n in names if isinstance(n, str)]))

    def _map(self, f):
        return SymName(self.term, [f(s) for s in self.table])

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def strip(self, *a):
        return self._map(lambda s: s.strip(*a))

    def replace(self, *a):
        return self._map(lambda s: s.replace(*a))

    def pick(self):
        """the name itself, one path per entry"""
        for j, nm in enumerate(self.table[:-1]):
            if decide(T.eq(self.term, T.const(j))):
                return nm
        return self.table[-1]

    def __eq__(self, o):
        if isinstance(o, SymName):
            if o.table == self.table:
                return T.eq(self.term, o.term)
            return self == o.pick()
        if isinstance(o, str):
            return self.cond([o])
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else T.not_(r)

    def __hash__(self):
        return hash(self.pick())

    def __str__(self):
        return self.pick()

    def __format__(self, spec):
        return format(self.pick(), spec)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.pick(), n)

    def __getitem__(self, k):
        return self.pick()[k]

    def __repr__(self):
        return '<name %r>' % (self.term,)


def seq_contains(x, seq):
    """membership in a list of symbolic length"""
    f = getattr(seq, 'contains', None)
    if f is not None:
        r = f(x)
        return r if isinstance(r, bool) else decide(r)
    b = T.bindvar(seq.dim, [])
    e = seq.elem(b)
    c = e == x
    return c if isinstance(c, bool) else decide(T.bexists(seq.dim, b, T.lift(c)))


def choose(k, label, names):
    """branch over a finite set of alternatives for index term k"""
    idx = T.app(('which', label), k, kind='I')
    for j, nm in enumerate(names[:-1]):
        if decide(T.eq(idx, T.const(j))):
            return nm
    return names[-1]


# ------------------------------------------------------------------ loop rule
class Poison:
    """a value that the loop rule does not describe"""

    def __init__(self, why=''):
        object.__setattr__(self, '_why', why)

    def _p(self, *a, **k):
        raise Unsupported('use of a value the loop rule does not describe: %s' % self._why)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        self._p()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _p
    __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __call__ = __float__ = __int__ = _p
    __pow__ = __rpow__ = __mod__ = __neg__ = __lt__ = __gt__ = __le__ = __ge__ = __and__ = __or__ = __iadd__ = _p
    __array_ufunc__ = None


UNDEF = object()


def root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


class Cell:
    """a mutable buffer or a local name whose value changes in the loop"""

    def __init__(self, kind, key, init, ixs, label):
        self.kind, self.key, self.init, self.ixs, self.label = kind, key, init, ixs, label


def reachable(values, depth=4):
    """root buffers of the symbolic arrays reachable from the given values"""
    out = {}
    seen = set()

    def go(v, d):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, SymMA):
            if v._mask is A.nomask:
                # an explicit all-False mask, so that the loop can change it
                v._mask = v.getmask()
            out[id(root(v._data.a))] = v._data
            out[id(root(v._mask.a))] = v._mask
        elif isinstance(v, SymArr):
            out[id(root(v.a))] = v
        elif d > 0:
            if isinstance(v, dict):
                for x in v.values():
                    go(x, d - 1)
            elif isinstance(v, (list, tuple)):
                for x in v:
                    go(x, d - 1)
            elif hasattr(v, '__dict__') and not isinstance(v, (type, Term)) and type(v).__module__.split('.')[0] in ('pyTMD', 'types', 'argparse'):
                for x in vars(v).values():
                    go(x, d - 1)
    for v in values:
        go(v, depth)
    return out


def _ixs_of(x):
    n = x.ndim
    return tuple(n - 1 - ax for ax in range(n) if x.dims[ax] is not None)


class Loop:
    def __init__(self, it, names, loc, line):
        S.loops += 1
        self.id = 'L%d' % S.loops
        self.it, self.names, self.line = it, names, line
        self.pre = {n: loc.get(n, UNDEF) for n in names}
        self.reach = reachable(loc.values())
        self.lists = {}
        self.marks = [(f, len(f.log)) for f in S.files]
        self.written = []
        for n in names:
            v = self.pre[n]
            if type(v) is list and all(not isinstance(x, SymSeq) for x in v):
                if sum(x is v for x in loc.values()) == 1:
                    self.lists[n] = (v, list(v))
        self.grown = {}
        self.snaps = {}
        self.order = []
        self.dprefix = []
        self.dim = it.dim
        self.k = T.var('%s.k' % self.id, 'I')
        self.mode = 'discover'
        self.paths = []
        self.frame = None
        self.prefix = []
        self.observer = None
        self.iterations = 0
        self.saved = {}
        self.changed = {}

    # ---- driving
    def again(self):
        if self.frame is not None:
            self._close()
        if self.mode == 'done':
            return False
        self._open()
        return True

    def _open(self):
        self.iterations += 1
        if self.iterations > 300:
            raise Unsupported('too many paths through a loop body')
        self.depth = len(S.frames)
        fr = Frame('loop', {self.k.id})
        fr.prefix = list(self.prefix)
        self.base_known = dict(S.known)
        self.nassume = len(S.assume)
        S.frames.append(fr)
        self.frame = fr
        for c in (T.le(T.IZERO, self.k), T.lt(self.k, self.dim.term)):
            S.assume.append(c)
            note(c, True)

        def obs(x):
            xs = [x]
            if isinstance(x, SymMA):
                xs = [x._data] + ([x._mask] if x._mask is not A.nomask else [])
            for y in xs:
                r = root(y.a)
                if id(r) not in self.reach:
                    continue
                if id(r) not in self.snaps:
                    if self.mode == 'run':
                        raise Unsupported('loop modifies an array not seen before')
                    self.snaps[id(r)] = r.copy()
                    self.order.append((r, _ixs_of(y), y))
        self.observer = obs
        A._writes.append(obs)
        # havoc
        if self.mode == 'run':
            for c in self.cells:
                if c.kind == 'buf':
                    self._havoc_buf(c)

    def _havoc_buf(self, c):
        r = c.key
        flat = r.reshape(-1) if r.flags['C_CONTIGUOUS'] else None
        for j, pos in enumerate(np.ndindex(r.shape)):
            r[pos] = self._h(c, j, c.init[pos])

    def _h(self, c, j, init):
        ixs = tuple(IX[p] for p in c.ixs)
        nm = ('H', self.id, c.label, j)
        if isinstance(init, CTerm):
            return CTerm(T.app(nm + ('re',), self.k, *ixs), T.app(nm + ('im',), self.k, *ixs))
        if isinstance(init, Term):
            return T.app(nm, self.k, *ixs, kind=init.kind if init.kind != 'I' else 'I')
        return init

    def state(self):
        out = []
        for n in self.names:
            v = self.pre[n]
            if self.mode == 'run' and n in self.namecells:
                c = self.namecells[n]
                if c is None:
                    v = Poison('value of %s at the start of an iteration' % n)
                else:
                    v = self._fresh_value(c)
            elif v is UNDEF:
                v = Poison('%s before assignment' % n)
            out.append(v)
        return tuple(out)

    def _fresh_value(self, c):
        i = c.init
        if isinstance(i, SymMA):
            raise Unsupported('rebinding of a masked array in a symbolic loop')
        if isinstance(i, SymArr):
            a = A._obj(i.a.shape)
            for j, pos in enumerate(np.ndindex(i.a.shape)):
                a[pos] = self._h(c, j, i.a[pos])
            return SymArr(a, i.dims, i.kind)
        return self._h(c, 0, i)

    def element(self):
        return self.it.elem(self.k)

    def once(self):
        """the body, or nothing for an index outside of a selection"""
        g = getattr(self.it, 'guard', None)
        return (0,) if g is None or decide(g(self.k)) else ()

    def _lists(self):
        """elements appended to lists by the pass that ends"""
        for n, (v, old) in self.lists.items():
            new = v[len(old):]
            same = len(v) >= len(old) and all(a is b for a, b in zip(v, old))
            v[:] = old
            if not same:
                raise Unsupported('list %s modified in a symbolic loop' % n)
            if self.mode == 'run':
                self.grown.setdefault(n, []).append(new)

    def _logs(self):
        """pieces of files that are written by the pass that ends"""
        for f, n in self.marks:
            new = f.log[n:]
            del f.log[n:]
            if new and self.mode == 'run':
                self.written.append((f, new))
        if len(S.files) != len(self.marks):
            raise Unsupported('file opened in a symbolic loop')

    def record(self, loc):
        self._logs()
        for n, (v, old) in self.lists.items():
            if loc.get(n) is not v:
                raise Unsupported('list %s rebound in a symbolic loop' % n)
        self._lists()
        if self.mode == 'discover':
            self._discover(loc)
            return
        conds = [(t if v else T.not_(t)) for t, v, _ in self.frame.trail]
        vals = {}
        for c in self.cells:
            if c.kind == 'buf':
                vals[id(c)] = c.key.copy()
            else:
                v = loc.get(c.key, UNDEF)
                vals[id(c)] = v
        temps = {n: loc.get(n, UNDEF) for n in self.names if n not in self.namecells or self.namecells[n] is None}
        self.paths.append((conds, vals, temps))

    def _close(self):
        A._writes.remove(self.observer)
        fr = self.frame
        assert S.frames[-1] is fr
        S.frames.pop()
        # restore knowledge, keeping decisions that were made at outer levels
        S.known = dict(self.base_known)
        S.assume = S.assume[:self.nassume]
        for f in S.frames:
            for t, v, _ in f.trail:
                note(t, v)
        self.frame = None
        if self.mode == 'discover':
            for r, ixs, y in self.order:
                r[...] = self.snaps[id(r)]
            self.prefix = next_prefix(fr)
            if self.prefix is None:
                self.prefix = []
                self.mode = 'run'
                self._discovered()
            return
        self.prefix = next_prefix(fr)
        # undo the writes of this pass
        for c in self.cells:
            if c.kind == 'buf':
                c.key[...] = c.init
        if self.prefix is None:
            self.mode = 'done'

    # ---- discovery
    def _discover(self, loc):
        # name cells: union over the paths
        for n in self.names:
            pre, post = self.pre[n], loc.get(n, UNDEF)
            if post is pre or pre is UNDEF or isinstance(pre, Poison):
                continue
            self.changed.setdefault(n, []).append(post)

    def _discovered(self):
        self.cells = []
        self.namecells = {}
        self.owner = {}
        for r, ixs, y in self.order:
            c = Cell('buf', r, self.snaps[id(r)], ixs, 'b%d' % len(self.cells))
            self.owner[id(r)] = y
            self.cells.append(c)
        for n in self.names:
            if n not in self.changed:
                continue
            init = self.pre[n]
            for post in self.changed[n]:
                init = self._cellinit(init, post) if init is not None else None
            if init is None:
                self.namecells[n] = None
            else:
                c = Cell('name', n, init, _ixs_of(init) if isinstance(init, SymArr) else (), n)
                self.namecells[n] = c
                self.cells.append(c)

    def _cellinit(self, pre, post):
        pre_n = isinstance(pre, (Term, CTerm, SymArr)) or (isinstance(pre, (int, float)) and not isinstance(pre, bool))
        if isinstance(pre, bool) and (isinstance(post, (bool, Term))):
            return lift(pre)
        post_n = isinstance(post, (Term, CTerm, SymArr)) or (isinstance(post, (int, float, bool)))
        if not (pre_n and post_n):
            return None
        p = A.asarr(pre) if isinstance(pre, SymArr) else lift(pre)
        if isinstance(post, SymArr) and post.ndim:
            q = post
            if isinstance(q, SymMA):
                return None
            try:
                b = A.broadcast_to(A.asarr(p), q.lens)
            except ValueError:
                return None
            k = A.maxkind([b.kind, q.kind])
            return b.astype({'R': float, 'I': int, 'B': bool, 'C': complex}[k]) if k != b.kind else b
        if isinstance(p, SymArr):
            return None
        pk, qk = A.kindof(p), A.kindof(lift(post) if not isinstance(post, SymArr) else post.item())
        k = A.maxkind([pk, qk])
        return A.cast(p, k) if k != pk else p

    # ---- after the loop
    def final(self):
        out = []
        vals = {}
        self.hterm = {}
        self._close_forms()
        if self.written and len(self.paths) != 1:
            raise Unsupported('file written differently on several paths of a symbolic loop')
        for f, new in self.written:
            for e in new:
                e = e.subst(self._subst_closed, self.k, self.dim)
                if any(self._is_h(t) for t in e.terms()):
                    raise Unsupported('place or content of a written record')
                f.log.append(e)
        for c in self.cells:
            vals[id(c)] = self._final_cell(c)
        for c in self.cells:
            if c.kind == 'buf':
                v = vals[id(c)]
                for j, pos in enumerate(np.ndindex(c.key.shape)):
                    c.key[pos] = v[j]
        for n in self.names:
            c = self.namecells.get(n, 0)
            if any(self.grown.get(n, ())):
                out.append(self._grown(n))
                continue
            if c is None or isinstance(c, int):
                # a temporary of the body: value of the last iteration when it
                # only depends on the index
                out.append(self._temp(n))
            else:
                v = vals[id(c)]
                i = c.init
                if isinstance(i, SymArr):
                    a = A._obj(i.a.shape)
                    for j, pos in enumerate(np.ndindex(i.a.shape)):
                        a[pos] = v[j]
                    out.append(SymArr(a, i.dims, A.akind(a, i.kind)))
                else:
                    out.append(v[0])
        return tuple(out)

    # ---- closed forms of the accumulators
    def _cellvals(self, c):
        """values of the cell before the loop, and after each path of the body"""
        init = list(c.init.ravel()) if isinstance(c.init, np.ndarray) else \
            list(c.init.a.ravel()) if isinstance(c.init, SymArr) else [c.init]
        posts = []
        for conds, vals, _ in self.paths:
            v = vals[id(c)]
            if v is UNDEF or isinstance(v, Poison):
                raise Unsupported('loop variable %s' % c.label)
            if isinstance(v, np.ndarray):
                v = list(v.ravel())
            elif isinstance(v, SymArr):
                if isinstance(c.init, SymArr):
                    v = A.broadcast_to(v, c.init.lens)
                    v = list(v.a.ravel())
                else:
                    v = [v.item()]
            else:
                v = lift(v)
                if isinstance(c.init, SymArr):
                    v = list(A.broadcast_to(A.asarr(v), c.init.lens).a.ravel())
                else:
                    v = [v]
            posts.append((T.conj(conds), v))
        return init, posts

    def _close_forms(self):
        """scalars to which every iteration adds the same amount: by induction,
        init + k * amount at the start of iteration k"""
        self.closed = {}
        if len(self.paths) != 1:
            return
        for c in self.cells:
            if c.ixs or (c.kind == 'name' and isinstance(c.init, SymArr)):
                continue
            init, posts = self._cellvals(c)
            for j, i0 in enumerate(init):
                if not isinstance(i0, Term) or i0.kind not in 'IR':
                    continue
                H, v = self._h(c, j, i0), lift(posts[0][1][j])
                if not isinstance(v, Term) or v.kind != i0.kind:
                    continue
                d = self._add_delta(H, v)
                if d is None or self._is_h(d) or self.k.id in T.freevars(d):
                    continue
                k = self.k if i0.kind == 'I' else T.toreal(self.k)
                self.closed[H.id] = T.add(i0, T.mul(k, d))
        if not self.closed:
            return
        r = self._subst_closed
        for i, (conds, vals, temps) in enumerate(self.paths):
            for key in list(vals):
                vals[key] = r(vals[key])
            for n, v in list(temps.items()):
                temps[n] = r(v)
            self.paths[i] = ([r(t) for t in conds], vals, temps)
        for n, news in self.grown.items():
            self.grown[n] = [[r(x) for x in new] for new in news]

    def _subst_closed(self, v):
        if isinstance(v, Term):
            return T.replace_terms(v, self.closed)
        if isinstance(v, CTerm):
            return CTerm(T.replace_terms(v.re, self.closed), T.replace_terms(v.im, self.closed))
        if isinstance(v, np.ndarray) and v.dtype == object:
            w = v.copy()
            for pos, t in np.ndenumerate(v):
                w[pos] = self._subst_closed(t)
            return w
        if isinstance(v, SymArr) and not isinstance(v, SymMA):
            return SymArr(self._subst_closed(v.a), v.dims, v.kind)
        return v

    def _grown(self, n):
        """a list to which every iteration appended the same number of values"""
        news = self.grown[n]
        if len(news) != 1:
            raise Unsupported('list %s grows differently on several paths' % n)
        for x in news[0]:
            ts = list(x.a.ravel()) if isinstance(x, SymArr) and not isinstance(x, SymMA) else [lift(x)]
            if any(self._is_h(y) for t in ts for y in ([t.re, t.im] if isinstance(t, CTerm) else [t])):
                raise Unsupported('list %s is given values of other iterations' % n)
        return A.SegList(self.lists[n][1], self.dim, self.k, news[0])

    def _is_h(self, t):
        """contains a havocked value of this loop"""
        k = ('hash', t.id)
        r = self.hterm.get(t.id)
        if r is None:
            r = False
            for x in T.subterms(t):
                if x.op == 'app' and isinstance(x.args[0], tuple) and x.args[0][0] == 'H' and x.args[0][1] == self.id:
                    r = True
                    break
            self.hterm[t.id] = r
        return r

    def _temp(self, n):
        pre = self.pre[n]
        vals = [p[2].get(n, UNDEF) for p in self.paths]
        if n not in self.namecells and pre is not UNDEF and all(v is pre for v in vals):
            return pre
        if len(vals) == 1:
            v = vals[0]
            last = {self.k: T.sub(self.dim.term, T.IONE)}
            if isinstance(v, (Term, CTerm)):
                parts = [v.re, v.im] if isinstance(v, CTerm) else [v]
                if not any(self._is_h(x) for x in parts):
                    return T.subst(v, last)
            elif isinstance(v, SymArr) and not isinstance(v, SymMA):
                if not any(self._is_h(y) for x in v.a.ravel() for y in ([x.re, x.im] if isinstance(x, CTerm) else [x] if isinstance(x, Term) else [])):
                    return SymArr(A.rename(v.a, last), v.dims, v.kind)
            elif isinstance(v, (str, int, float)) or v is None:
                return v
        return Poison('%s after the loop' % n)

    def _final_cell(self, c):
        init, posts = self._cellvals(c)
        n = len(init)
        out = []
        for j in range(n):
            i0 = init[j]
            H = self._h(c, j, i0)
            if isinstance(i0, CTerm):
                re = self._solve(c, i0.re, H.re, [(cd, lift(v[j]).re if isinstance(lift(v[j]), CTerm) else lift(v[j])) for cd, v in posts])
                im = self._solve(c, i0.im, H.im, [(cd, lift(v[j]).im if isinstance(lift(v[j]), CTerm) else T.ZERO) for cd, v in posts])
                out.append(CTerm(re, im))
            elif isinstance(i0, Term):
                out.append(self._solve(c, i0, H, [(cd, lift(v[j])) for cd, v in posts]))
            else:
                if all(v[j] is i0 for cd, v in posts):
                    out.append(i0)
                else:
                    raise Unsupported('object array modified in a symbolic loop')
        return out

    def _solve(self, c, init, H, posts):
        """the value after the loop of a cell with head value H"""
        post = posts[-1][1]
        for cd, v in reversed(posts[:-1]):
            post = T.ite(cd, v, post)
        if post is H:
            return init
        if not self._is_h(post):
            # overwritten in every iteration: value of the last one
            return T.subst(post, {self.k: T.sub(self.dim.term, T.IONE)})
        # written at the element whose index is the loop index
        r = self._write_at(c, init, H, post)
        if r is None and len(posts) > 1:
            r = self._write_at(c, init, H, post, posts)
        if r is not None:
            return r
        if init.kind == 'B':
            d = self._or_delta(H, post)
            if d is not None and not self._is_h(d):
                return T.lor(init, self._exists(d))
            d = self._or_delta(T.not_(H), T.not_(post))
            if d is not None and not self._is_h(d):
                return T.land(init, T.not_(self._exists(d)))
            raise Unsupported('loop invariant for the boolean %s (line %s)' % (c.label, self.line))
        d = self._add_delta(H, post)
        if d is not None and not self._is_h(d):
            b = T.bindvar(self.dim, [d])
            return T.add(init, T.bsum(self.dim, b, T.subst(d, {self.k: b})))
        d = self._or_flag(H, post)
        raise Unsupported('no loop invariant found for %s (line %s): %s' % (c.label, self.line, T.show(post)[:300]))

    def _or_flag(self, H, post):
        return None

    def _exists(self, d):
        b = T.bindvar(self.dim, [d])
        return T.bexists(self.dim, b, T.subst(d, {self.k: b}))

    def _add_delta(self, H, post):
        if post is H:
            return T.IZERO if H.kind == 'I' else T.ZERO
        if post.op == 'toreal' and post.args[0] is H:
            return T.ZERO
        if post.op == 'add':
            a, b = post.args
            ha, hb = self._has(a, H), self._has(b, H)
            if ha and not hb:
                d = self._add_delta(H, a)
                return None if d is None else T.add(d, b)
            if hb and not ha:
                d = self._add_delta(H, b)
                return None if d is None else T.add(a, d)
            return None
        if post.op == 'ite':
            if self._has(post.args[0], H):
                return None
            a = self._add_delta(H, post.args[1])
            b = self._add_delta(H, post.args[2])
            if a is None or b is None:
                return None
            return T.ite(post.args[0], a, b)
        # linear rewriting through the normal form
        if self._has(post, H):
            from . import nf
            try:
                p = nf.poly(T.sub(post, H))
            except (Unsupported, nf.TooBig):
                return None
            if not p:
                return T.ZERO
            d = T.sub(post, H)
            z = T.replace_terms(d, {H.id: T.ZERO})
            if nf.is_zero(T.sub(d, z)):
                return z
        return None

    def _has(self, t, H):
        return any(x is H for x in T.subterms(t))

    def _or_delta(self, H, post):
        if post is H:
            return T.FALSE
        if post.op == 'or':
            a, b = post.args
            ha, hb = self._has(a, H), self._has(b, H)
            if ha and not hb:
                d = self._or_delta(H, a)
                return None if d is None else T.lor(d, b)
            if hb and not ha:
                d = self._or_delta(H, b)
                return None if d is None else T.lor(a, d)
            if ha and hb:
                d1, d2 = self._or_delta(H, a), self._or_delta(H, b)
                if d1 is not None and d2 is not None:
                    return T.lor(d1, d2)
                # (c and H) or d with c or d valid ... generic: post(H=False) is
                # the delta when post(H=True) is TRUE
        z = T.replace_terms(post, {H.id: T.FALSE})
        o = T.replace_terms(post, {H.id: T.TRUE})
        if o is T.TRUE:
            return z
        from . import prove
        if prove.valid_bool(o):
            return z
        return None

    def _write_at(self, c, init, H, post, posts=None):
        """post = ite(index == k, V, H): final value V with k := index"""
        for p in c.ixs:
            t1, t2 = T.eq(IX[p], self.k), None
            if not any(x is t1 for x in T.subterms(post)):
                continue
            # the axis at position p must have the length of the loop
            hit = T.replace_terms(post, {t1.id: T.TRUE})
            miss = T.replace_terms(post, {t1.id: T.FALSE})
            if posts is not None:
                # path by path: none writes at the other elements
                if not all(T.replace_terms(v, {t1.id: T.FALSE}) is H for cd, v in posts):
                    continue
                hit = T.replace_terms(posts[-1][1], {t1.id: T.TRUE})
                for cd, v in reversed(posts[:-1]):
                    hit = T.ite(cd, T.replace_terms(v, {t1.id: T.TRUE}), hit)
            elif miss is not H:
                continue
            if self._axis_dim(c, p) is not self.dim:
                raise Unsupported('loop writes along an axis of another length')
            if self.k.id in T.freevars(H) and False:
                return None
            # H inside the hit value is the value before the loop: this
            # element is written by this iteration only
            v = T.replace_terms(hit, {H.id: init})
            if self._is_h(v):
                continue
            return T.subst(v, {self.k: IX[p]})
        return None

    def _axis_dim(self, c, p):
        if c.kind == 'buf':
            y = self.owner[id(c.key)]
        else:
            y = c.init
        return y.dims[y.ndim - 1 - p]
