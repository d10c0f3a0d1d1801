"""Discharging obligations: exact normal form + case splits, z3 for the rest."""
import os
import sys
import time
from fractions import Fraction
_p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _p not in sys.path:
    sys.path.append(_p)
import z3
from . import terms as T
from . import nf
from .terms import Term, CTerm, Unsupported, lift

STATS = dict(z3_calls=0, z3_time=0.0, nf_calls=0, nf_time=0.0, splits=0)


# -------------------------------------------------------------- z3 encoding
class Enc:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.dep, self.used, self.sideof = {}, set(), {}
        self.trig = {}
        self.funcs = {}
        self.n = 0
        self.pi = None

    def fresh(self, s, kind='R'):
        self.n += 1
        nm = '%s!%d' % (s, self.n)
        return z3.Real(nm) if kind == 'R' else z3.Int(nm) if kind == 'I' else z3.Bool(nm)

    def real(self, z):
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z

    def __call__(self, t):
        if t.id in self.memo:
            return self.memo[t.id]
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            kids = [] if x.op in ('sum', 'exists', 'minover', 'maxover', 'argover') else list(T.children(x))
            todo = [c for c in kids if c.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            n, self.used = len(self.side), set()
            self.memo[x.id] = self.enc1(x)
            # side conditions of what stands for the term
            d = self.used | set(range(n, len(self.side)))
            if d:
                self.dep[x.id] = frozenset(d)
            stack.pop()
        return self.memo[t.id]

    def getpi(self):
        if self.pi is None:
            self.pi = z3.Real('pi')
            self.piside = {len(self.side), len(self.side) + 1}
            self.side += [self.pi > z3.RealVal('3.14159265358979'), self.pi < z3.RealVal('3.14159265358980')]
        self.used |= self.piside
        return self.pi

    def key(self, t):
        """identity of an argument up to normal form"""
        try:
            return nf.freeze(nf.poly(t))
        except Exception:
            return ('id', t.id)

    def enc1(self, x):
        g = lambda y: self.memo[y.id]
        op, a = x.op, x.args
        if op == 'const':
            f = a[0]
            if x.kind == 'I':
                return z3.IntVal(int(f))
            return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(str(f.numerator))
        if op == 'pi':
            return self.getpi()
        if op == 'var':
            n = a[0]
            return z3.Real(n) if x.kind == 'R' else z3.Int(n) if x.kind == 'I' else z3.Bool(n)
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op in ('nan', 'inf'):
            return z3.Real('%' + op)
        if op == 'add':
            return self.arith(g(a[0]), g(a[1]), lambda u, v: u + v, x.kind)
        if op == 'mul':
            return self.arith(g(a[0]), g(a[1]), lambda u, v: u * v, x.kind)
        if op == 'div':
            return self.real(g(a[0])) / self.real(g(a[1]))
        if op == 'ipow':
            b = g(a[0])
            r = b
            for _ in range(a[1] - 1):
                r = r * b
            return r
        if op == 'toreal':
            return self.real(g(a[0]))
        if op == 'floor':
            return z3.ToInt(self.real(g(a[0])))
        if op == 'lt':
            return self.arith(g(a[0]), g(a[1]), lambda u, v: u < v, None)
        if op == 'le':
            return self.arith(g(a[0]), g(a[1]), lambda u, v: u <= v, None)
        if op == 'eq':
            return self.arith(g(a[0]), g(a[1]), lambda u, v: u == v, None)
        if op == 'not':
            return z3.Not(g(a[0]))
        if op == 'and':
            return z3.And(g(a[0]), g(a[1]))
        if op == 'or':
            return z3.Or(g(a[0]), g(a[1]))
        if op == 'ite':
            u, v = g(a[1]), g(a[2])
            if u.sort() != v.sort():
                u, v = self.real(u), self.real(v)
            return z3.If(g(a[0]), u, v)
        if op == 'app':
            args = [g(y) for y in a[1:]]
            if not args:
                return self.fresh('c', x.kind)
            nm = 'f:' + str(a[0]) + ':' + ','.join(str(z.sort()) for z in args) + x.kind
            f = self.funcs.get(nm)
            if f is None:
                rs = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}[x.kind]
                f = z3.Function(nm, *([z.sort() for z in args] + [rs]))
                self.funcs[nm] = f
            return f(*args)
        if op == 'fn':
            return self.fn(a[0], a[1:], x, g)
        if op == 'sum':
            return self.fresh('sum', x.kind)
        if op == 'exists':
            d, b, body = a
            if all(y.op not in ('sum', 'fn', 'minover', 'maxover', 'argover') or (y.op == 'fn' and y.args[0] == 'abs') for y in T.subterms(body)):
                n = len(self.side)
                zb = self(body)
                zv, dt = self(b), self(d.term)
                if len(self.side) == n:
                    return z3.Exists([zv], z3.And(zv >= 0, zv < dt, zb))
            return self.fresh('ex', 'B')
        return self.fresh('opq', x.kind)

    def arith(self, u, v, f, k):
        if u.sort() != v.sort():
            u, v = self.real(u), self.real(v)
        return f(u, v)

    def fn(self, n, args, x, g):
        z = self.real(g(args[0])) if args else None
        if n == 'abs':
            z = g(args[0])
            return z3.If(z >= 0, z, -z)
        c = len(self.side)
        r = self.fn1(n, args, x, g, z)
        k = self.last
        if k in self.sideof:
            self.used |= self.sideof[k]
        else:
            self.sideof[k] = set(range(c, len(self.side)))
            if n in ('atan2', 'atan', 'asin', 'acos'):
                self.sideof[k] |= self.piside
        return r

    def fn1(self, n, args, x, g, z):
        if n == 'sqrt':
            k = self.last = ('sqrt', self.key(args[0]))
            if k not in self.trig:
                s = self.fresh('sqrt')
                self.side += [s >= 0, z3.Implies(z >= 0, s * s == z)]
                self.trig[k] = s
            return self.trig[k]
        if n in ('sin', 'cos', 'tan'):
            k = self.last = ('trig', self.key(args[0]))
            if k not in self.trig:
                s, c = self.fresh('sin'), self.fresh('cos')
                self.side += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
                self.trig[k] = (s, c)
            s, c = self.trig[k]
            return s if n == 'sin' else c if n == 'cos' else s / c
        if n == 'exp':
            k = self.last = ('exp', self.key(args[0]))
            if k not in self.trig:
                e = self.fresh('exp')
                self.side += [e > 0, z3.Implies(z > 0, e > 1), z3.Implies(z < 0, e < 1), z3.Implies(z == 0, e == 1)]
                self.trig[k] = e
            return self.trig[k]
        k = self.last = (n,) + tuple(self.key(y) for y in args)
        if k in self.trig:
            return self.trig[k]
        r = self.fresh(n)
        self.trig[k] = r
        pi = self.getpi() if n in ('atan2', 'atan', 'asin', 'acos') else None
        if n == 'atan2':
            y, xx = self.real(g(args[0])), self.real(g(args[1]))
            self.side += [r > -pi, r <= pi, z3.Implies(y > 0, z3.And(r > 0, r < pi)), z3.Implies(y < 0, r < 0),
                          z3.Implies(z3.And(y == 0, xx > 0), r == 0), z3.Implies(z3.And(y == 0, xx < 0), r == pi),
                          z3.Implies(xx > 0, z3.And(r < pi / 2, r > -pi / 2)),
                          z3.Implies(z3.And(xx < 0, y > 0), r > pi / 2), z3.Implies(z3.And(xx < 0, y < 0), r < -pi / 2),
                          z3.Implies(z3.And(xx == 0, y > 0), r == pi / 2), z3.Implies(z3.And(xx == 0, y < 0), r == -pi / 2)]
        elif n == 'atan':
            self.side += [r > -pi / 2, r < pi / 2, z3.Implies(z > 0, r > 0), z3.Implies(z < 0, r < 0), z3.Implies(z == 0, r == 0)]
        elif n == 'asin':
            self.side += [r >= -pi / 2, r <= pi / 2, z3.Implies(z > 0, r > 0), z3.Implies(z < 0, r < 0), z3.Implies(z == 0, r == 0)]
        elif n == 'acos':
            self.side += [r >= 0, r <= pi, z3.Implies(z > 0, r < pi / 2), z3.Implies(z < 0, r > pi / 2), z3.Implies(z == 1, r == 0),
                          z3.Implies(z == -1, r == pi)]
        elif n == 'negonepow':
            self.side += [z3.Or(r == 1, r == -1)]
        elif n == 'log':
            self.side += [z3.Implies(z > 1, r > 0), z3.Implies(z3.And(z > 0, z < 1), r < 0)]
        return r


def _check(formulas, timeout):
    t0 = time.time()
    s = z3.Solver()
    # a budget of steps, so that the answer does not depend on the load; the time is a
    # safeguard
    s.set('rlimit', timeout * 30000)
    s.set('timeout', timeout * (6 if timeout < 1000 else 3))
    s.set('random_seed', 1)
    s.add(*formulas)
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    return r, s


_feas = {}


def relevant(hyps, t):
    """hypotheses sharing variables or applications with t (transitively)"""
    def sym(x):
        return frozenset(y.id if y.op == 'var' else (y.args[0] if y.op == 'app' else y.id)
                         for y in T.subterms(x) if y.op in ('var', 'app', 'sum', 'exists', 'minover', 'maxover', 'argover'))
    want = set(_symcache(t, sym))
    out = []
    rest = list(hyps)
    changed = True
    while changed:
        changed = False
        keep = []
        for h in rest:
            if _symcache(h, sym) & want:
                out.append(h)
                want |= _symcache(h, sym)
                changed = True
            else:
                keep.append(h)
        rest = keep
    return out


_symc = {}


def _symcache(t, f):
    r = _symc.get(t.id)
    if r is None:
        r = f(t)
        _symc[t.id] = r
    return r


_factc = {}


def bound_facts(ts):
    """declared bounds of the input array elements that occur"""
    from .contract import BOUNDS
    if _factc.get('n') != len(BOUNDS):
        _factc.clear()
        _factc['n'] = len(BOUNDS)
    out, ids = [], set()
    for t in ts:
        f = _factc.get(t.id)
        if f is None:
            f = _factc[t.id] = _bound_facts(t)
        for x in f:
            if x.id not in ids:
                ids.add(x.id)
                out.append(x)
    return out


def _bound_facts(t):
    from .contract import BOUNDS
    out = []
    for x in T.subterms(t):
        if x.op == 'app' and x.args[0] in BOUNDS:
            lo, hi, op = BOUNDS[x.args[0]]
            if lo is not None:
                out.append(T.lt(lift(lo), x) if op else T.le(lift(lo), x))
            if hi is not None:
                out.append(T.lt(x, lift(hi)) if op else T.le(x, lift(hi)))
        elif x.op == 'app' and isinstance(x.args[0], tuple) and x.args[0][0] == 'which':
            out.append(T.le(T.IZERO, x))
        elif x.op == 'app' and isinstance(x.args[0], tuple) and x.args[0][0] == 'bracket':
            from . import arr
            out += arr.bracket_facts(x)
        elif x.op == 'argover':
            from . import arr
            out += arr.extremal_facts(x)
        elif x.op in ('minover', 'maxover'):
            # not above (below) the value at any index
            from . import arr
            d, can, body = x.args
            for i in arr.IX[:3]:
                v = T.subst(body, {can: i})
                out.append(T.lor(T.not_(T.land(T.le(T.IZERO, i), T.lt(i, d.term))), T.le(x, v) if x.op == 'minover' else T.le(v, x)))
    return [lift(x) for x in out]


_shared = None


class Shared:
    """one encoding for many questions: the side conditions of each formula"""
    def __init__(self):
        self.e = Enc()
        self.owner = {}         # id of a z3 constant -> indices of side conditions
        self.of = {}

    def __call__(self, t):
        e = self.e
        z = e(t)
        if t.id not in self.of:
            # side conditions of the constants made for subterms
            out = set()
            for x in T.subterms(t):
                out |= e.dep.get(x.id, frozenset())
            self.of[t.id] = out
        return z, self.of[t.id]


def encoded(ts):
    global _shared
    if _shared is None or len(_shared.e.memo) > 300000:
        _shared = Shared()
    fs, side = [], set()
    for t in ts:
        z, k = _shared(t)
        fs.append(z)
        side |= k
    return fs + [_shared.e.side[i] for i in sorted(side)]


_quantc = {}


def _quantified(t):
    r = _quantc.get(t.id)
    if r is None:
        r = _quantc[t.id] = any(y.op == 'exists' for y in T.subterms(t))
    return r


def feasible(hyps, t, timeout=400):
    hs = relevant(hyps, t)
    hs = hs + bound_facts(hs + [t])
    k = (frozenset(h.id for h in hs), t.id)
    r = _feas.get(k)
    if r is None:
        try:
            r = True
            few = [h for h in hs if not _quantified(h)]
            # without the quantified hypotheses first
            for part in ([few, hs] if len(few) < len(hs) else [hs]):
                z, s = _check(encoded(part + [t]), timeout)
                r = z != z3.unsat
                if not r:
                    break
        except (z3.Z3Exception, Unsupported):
            r = True
        _feas[k] = r
    return r


def valid_bool(t, hyps=(), timeout=2000):
    return not feasible(list(hyps), T.not_(t), timeout)


# ------------------------------------------------------------------- proving
class Failed(Exception):
    def __init__(self, why, model=None, case=()):
        Exception.__init__(self, why)
        self.why, self.model, self.case = why, model, case


def ite_conds(t, known, out, seen):
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            k = known_value(x.args[0], known)
            if k is None:
                out.append(x.args[0])
                stack.append(x.args[1])
                stack.append(x.args[2])
            else:
                stack.append(x.args[1] if k else x.args[2])
            continue
        if x.op in ('sum', 'exists'):
            continue
        stack.extend(T.children(x))


def known_value(c, known):
    k = known.get(c.id)
    if k is not None:
        return k
    if c.op == 'not':
        k = known_value(c.args[0], known)
        return None if k is None else not k
    if c.op == 'and':
        vs = [known_value(a, known) for a in c.args]
        if False in vs:
            return False
        return True if None not in vs else None
    if c.op == 'or':
        vs = [known_value(a, known) for a in c.args]
        if True in vs:
            return True
        return False if None not in vs else None
    return None


def set_known(c, v, known):
    known[c.id] = v
    n = T.not_(c)
    known[n.id] = not v
    if c.op == 'and' and v:
        for a in c.args:
            set_known(a, True, known)
    if c.op == 'or' and not v:
        for a in c.args:
            set_known(a, False, known)
    if c.op == 'not':
        set_known(c.args[0], not v, known) if c.args[0].id not in known else None


class Prover:
    def __init__(self, hyps, known=None, nonneg=(), deadline=None, timeout=8000, max_splits=4000):
        self.hyps = list(hyps)
        self.known = dict(known or {})
        for h in self.hyps:
            set_known(h, True, self.known)
        self.nonneg = set(nonneg)
        self.timeout = timeout
        self.splits = 0
        self.max_splits = max_splits
        self.deadline = deadline
        self.method = set()

    def prove(self, goal):
        """raises Failed"""
        if isinstance(goal, bool):
            goal = T.TRUE if goal else T.FALSE
        from .contract import BoolEq
        if isinstance(goal, BoolEq):
            x, y = self._merge_exists(goal.x, goal.y)
            goal = T.eq(x, y)
        g = self.generalised(goal)
        if g is not None:
            try:
                self._prove(*g)
                return
            except Failed:
                pass
        known = dict(self.known)
        hyps = self.hyps + self.instances(goal, self.hyps)
        for h in hyps[len(self.hyps):]:
            set_known(h, True, known)
        self._prove(goal, hyps, known)

    def generalised(self, goal):
        """the goal with the values of opaque functions replaced by arbitrary
        ones: its validity implies that of the goal"""
        from .contract import BOUNDS, OPAQUE
        if not OPAQUE:
            return None
        m, facts, seen = {}, [], set()
        hyps = self.hyps + self.instances(goal, self.hyps)
        stack = [goal] + hyps
        while stack:
            x = stack.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'app' and x.args[0] in OPAQUE:
                v = T.var('%%g%d' % x.id, x.kind)
                m[x.id] = v
                lo, hi, op = BOUNDS.get(x.args[0], (None, None, False))
                if lo is not None:
                    facts.append(T.le(lift(lo), v))
                if hi is not None:
                    facts.append(T.le(v, lift(hi)))
                continue
            if x.op in ('sum', 'exists', 'minover', 'maxover', 'argover'):
                continue        # may depend on the bound index
            stack.extend(T.children(x))
        if not m:
            return None
        goal = T.replace_terms(goal, m)
        hyps = [T.replace_terms(h, m) for h in hyps] + facts
        known = {}
        for h in hyps:
            set_known(h, True, known)
        return goal, hyps, known

    def instances(self, goal, hyps):
        """universal hypotheses (negated existentials) at the indices of the
        goal"""
        ints = ids = None
        out, todo = [], list(hyps)
        while todo:
            univ = []
            for h in todo:
                st = [h]
                while st:
                    x = st.pop()
                    if x.op == 'and':
                        st.extend(x.args)
                    elif x.op == 'not' and x.args[0].op == 'exists':
                        univ.append(x.args[0].args)
            todo = []
            if univ and ints is None:
                ints = [x for x in T.subterms(goal) if x.op == 'var' and x.kind == 'I']
                ids = {h.id for h in hyps}
            for dim, b, body in univ:
                for i in ints:
                    lo, hi = T.le(T.IZERO, i), T.lt(i, dim.term)
                    if lo.id in ids and hi.id in ids:
                        todo.append(T.not_(T.subst(body, {b: i})))
            out += todo
        return out

    def _merge_exists(self, x, y):
        """replace quantified subformulas of y by provably equivalent ones of x"""
        ex = [t for t in T.subterms(x) if t.op == 'exists']
        ey = [t for t in T.subterms(y) if t.op == 'exists' and not any(t is u for u in ex)]
        m = {}
        for t in ey:
            for u in ex:
                if t.args[0] is not u.args[0]:
                    continue
                k = T.fresh('kx', 'I')
                a = T.subst(t.args[2], {t.args[1]: k})
                b = T.subst(u.args[2], {u.args[1]: k})
                h = self.hyps + [T.le(T.IZERO, k), T.lt(k, t.args[0].term)]
                try:
                    p = Prover(h, nonneg=self.nonneg, deadline=self.deadline, timeout=2000, max_splits=400)
                    from .contract import BoolEq
                    p.prove(BoolEq(a, b))
                except (Failed, Unsupported):
                    continue
                m[t.id] = u
                break
        return x, T.replace_terms(y, m) if m else y

    def _lin(self, t):
        """t = sum over symbolic indices of bodies + rest"""
        if not any(x.op == 'sum' for x in T.subterms(t)):
            return {}, t
        if t.op == 'sum':
            b = T.var('%lin:' + str(t.args[0]), 'I')
            return {t.args[0]: T.subst(t.args[2], {t.args[1]: b})}, T.ZERO
        if t.op == 'add':
            d1, r1 = self._lin(t.args[0])
            d2, r2 = self._lin(t.args[1])
            d = dict(d1)
            for k, v in d2.items():
                d[k] = T.add(d[k], v) if k in d else v
            return d, T.add(r1, r2)
        if t.op == 'mul':
            for i in (0, 1):
                c, u = t.args[i], t.args[1 - i]
                if not any(x.op == 'sum' for x in T.subterms(c)):
                    d, r = self._lin(u)
                    return {k: T.mul(c, v) for k, v in d.items()}, T.mul(c, r)
        if t.op == 'div' and not any(x.op == 'sum' for x in T.subterms(t.args[1])):
            d, r = self._lin(t.args[0])
            return {k: T.div(v, t.args[1]) for k, v in d.items()}, T.div(r, t.args[1])
        if t.op == 'toreal':
            return self._lin(t.args[0])
        raise Failed('sum in a nonlinear position')

    def _eq_sums(self, goal, hyps, known, depth):
        a, b = goal.args
        if not any(x.op == 'sum' for x in T.subterms(T.sub(a, b))):
            return False
        try:
            d, r = self._lin(T.sub(a, b))
        except Failed:
            return False
        for dim, body in d.items():
            k = T.var('%lin:' + str(dim), 'I')
            hk = hyps + [T.le(T.IZERO, k), T.lt(k, dim.term)]
            gk = T.eq(body, T.ZERO)
            kk = dict(known)
            new = self.instances(gk, hk)
            for h in new:
                set_known(h, True, kk)
            self._atom(gk, hk + new, kk, depth + 1)
        self._atom(T.eq(r, T.ZERO), hyps, known, depth + 1)
        return True

    def _prove(self, goal, hyps, known):
        if goal is T.TRUE:
            return
        k = known_value(goal, known)
        if k:
            return
        if goal.op == 'and':
            for a in goal.args:
                self._prove(a, hyps, known)
            return
        if goal.op == 'ite':
            raise Unsupported('goal')
        self._atom(goal, hyps, known, 0)

    def _strip(self, t, known):
        """resolve the ite whose condition is known"""
        memo = {}

        def go(x):
            r = memo.get(x.id)
            if r is not None:
                return r
            if x.op == 'ite':
                k = known_value(x.args[0], known)
                if k is not None:
                    r = go(x.args[1] if k else x.args[2])
                    memo[x.id] = r
                    return r
            if x.kind == 'B':
                k = known_value(x, known)
                if k is not None:
                    r = T.TRUE if k else T.FALSE
                    memo[x.id] = r
                    return r
            if x.op in ('sum', 'exists') or not any(isinstance(a, Term) for a in x.args):
                r = x
            else:
                r = T.rebuild(x, [go(a) if isinstance(a, Term) else a for a in x.args])
                # conditions may be known in their simpler form only
                if r is not x and r.op == 'ite':
                    k = known_value(r.args[0], known)
                    r = r if k is None else r.args[1] if k else r.args[2]
                elif r is not x and r.kind == 'B':
                    k = known_value(r, known)
                    r = r if k is None else T.TRUE if k else T.FALSE
            memo[x.id] = r
            return r
        return go(t)

    def _atom(self, goal, hyps, known, depth):
        if self.deadline and time.time() > self.deadline:
            raise Failed('time limit')
        goal = self._strip(goal, known)
        if goal is T.TRUE:
            return
        if goal.op == 'and':
            for a in goal.args:
                self._atom(a, hyps, known, depth)
            return
        if goal.op == 'eq' and goal.args[0].kind != 'B':
            if self._eq_nf(goal):
                return
        conds = []
        ite_conds(goal, known, conds, set())
        if conds:
            # the innermost condition without ite inside, most frequent first
            c = self._pick(conds, known)
            self.splits += 1
            STATS['splits'] += 1
            if self.splits > self.max_splits:
                raise Failed('too many cases')
            for v in (True, False):
                lit = c if v else T.not_(c)
                if lit is T.FALSE:
                    continue
                if not feasible(hyps, lit, 300):
                    continue
                kn = dict(known)
                set_known(c, v, kn)
                self._atom(goal, hyps + [lit], kn, depth + 1)
            return
        if goal.op == 'eq' and goal.args[0].kind != 'B' and self._eq_sums(goal, hyps, known, depth):
            return
        self._z3(goal, hyps, known)

    def _pick(self, conds, known):
        for c in conds:
            inner = []
            ite_conds(c, known, inner, set())
            if not inner:
                # split on an atom of the condition
                return self._unknown_atom(c, known)
        return self._unknown_atom(conds[0], known)

    def _unknown_atom(self, c, known):
        while c.op in ('and', 'or', 'not'):
            nxt = None
            for a in c.args:
                if known_value(a, known) is None:
                    nxt = a
                    break
            if nxt is None:
                return c
            c = nxt
        return c

    def _eq_nf(self, goal):
        t0 = time.time()
        STATS['nf_calls'] += 1
        try:
            r = nf.is_zero(T.sub(goal.args[0], goal.args[1]), nf.Ctx(nonneg=self.nonneg))
            if r:
                self.method.add('normal-form')
            return r
        except (nf.TooBig, ZeroDivisionError, Unsupported):
            return False
        finally:
            STATS['nf_time'] += time.time() - t0

    def _z3(self, goal, hyps, known):
        e = Enc()
        hs = relevant(hyps, goal)
        hs = hs + bound_facts(hs + [goal])
        try:
            fs = [e(h) for h in hs]
            g = e(goal)
        except (z3.Z3Exception, Unsupported) as ex:
            raise Failed('not expressible for z3: %s' % ex)
        r, s = _check(fs + e.side + [z3.Not(g)], self.timeout)
        if r == z3.unsat:
            self.method.add('z3')
            return
        if len(hs) < len(hyps):
            # is the case possible at all?
            allh = list(hyps) + bound_facts(list(hyps) + [goal])
            try:
                fs = [e(h) for h in allh]
                if _check(fs + e.side + [z3.Not(g)], self.timeout)[0] == z3.unsat:
                    self.method.add('z3')
                    return
            except (z3.Z3Exception, Unsupported):
                pass
        model = None
        if r == z3.sat:
            model = self._model(s.model(), e)
        why = '%s: cannot show %s' % (r, T.show(goal, 6)[:600])
        raise Failed(why, model, hyps)

    def _model(self, m, e):
        out = {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                try:
                    if z3.is_rational_value(v):
                        out[d.name()] = float(v.numerator_as_long()) / float(v.denominator_as_long())
                    elif z3.is_int_value(v):
                        out[d.name()] = v.as_long()
                    elif z3.is_algebraic_value(v):
                        out[d.name()] = float(v.approx(20).numerator_as_long()) / float(v.approx(20).denominator_as_long())
                    elif z3.is_true(v) or z3.is_false(v):
                        out[d.name()] = z3.is_true(v)
                except Exception:
                    pass
            else:
                # constant part of a function interpretation, for input arrays
                try:
                    v = m[d].else_value()
                    if z3.is_rational_value(v):
                        out[d.name()] = float(v.numerator_as_long()) / float(v.denominator_as_long())
                    n = m[d].num_entries()
                    if n:
                        v = m[d].entry(0).value()
                        if z3.is_rational_value(v):
                            out[d.name()] = float(v.numerator_as_long()) / float(v.denominator_as_long())
                except Exception:
                    pass
        return out
