"""Exact normal form for real expressions.

A polynomial is a dict  {Mono: (re, im)}  with rational coefficients.
A Mono is (powers, expo):  powers = sorted tuple of (atom id, integer power),
expo = frozen polynomial E standing for the factor exp(E)  (so products of
sines and cosines become sums of exponentials: the product-to-sum form, which
is canonical and has sin^2+cos^2=1 built in).

Atoms: variables, uninterpreted applications, square roots (r*r reduces),
inverses of polynomials, floors (integers), sums over a symbolic index, ...
A zero test multiplies inverses out, so it is an exact test in the field of
fractions; a term for which the test says "zero" is identically zero wherever
the divisors are non-zero.  "not zero" is not a refutation: it means the
normaliser could not show it.
"""
from fractions import Fraction
from . import terms as T
from .terms import Term, CTerm, Unsupported

F0, F1 = Fraction(0), Fraction(1)
ZP = {}
EMPTY = ((), ())
ONEP = {EMPTY: (F1, F0)}


class TooBig(Exception):
    pass


LIMIT = 60000


class Atom:
    __slots__ = ('id', 'kind', 'data', 'term', 'integer', 'nonneg')
    table = {}
    byid = []

    @classmethod
    def get(cls, kind, data, term=None, integer=False, nonneg=False):
        k = (kind, data)
        a = cls.table.get(k)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.data, a.term, a.integer = kind, data, term, integer
            a.nonneg = nonneg
            a.id = len(cls.byid)
            cls.byid.append(a)
            cls.table[k] = a
        return a

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.data if self.kind != 'var' else self.data)


PIA = Atom.get('pi', 'pi')


def freeze(p):
    return tuple(sorted(p.items()))


def thaw(f):
    return dict(f)


def padd(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        d = r.get(m)
        if d is None:
            r[m] = c
        else:
            s = (d[0] + c[0], d[1] + c[1])
            if s[0] == 0 and s[1] == 0:
                del r[m]
            else:
                r[m] = s
    return r


def cmulc(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0], F0)
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def pscale(a, c):
    if c[0] == 0 and c[1] == 0:
        return {}
    return {m: cmulc(x, c) for m, x in a.items()}


def pneg(a):
    return {m: (-x[0], -x[1]) for m, x in a.items()}


def psub(a, b):
    return padd(a, pneg(b))


def pconst(f):
    return {EMPTY: (Fraction(f), F0)} if f != 0 else {}


def patom(a, e=1):
    return {(((a.id, e),), ()): (F1, F0)}


def is_const(p):
    return not p or (len(p) == 1 and EMPTY in p)


def const_of(p):
    if not p:
        return (F0, F0)
    return p[EMPTY]


_monomul = {}


def monomul(m1, m2):
    """product of two monomials: (extra polynomial or None, coefficient, mono)"""
    if m1 == EMPTY:
        return None, (F1, F0), m2
    if m2 == EMPTY:
        return None, (F1, F0), m1
    key = (m1, m2)
    r = _monomul.get(key)
    if r is not None:
        return r
    p1, e1 = m1
    p2, e2 = m2
    extra = None
    coef = (F1, F0)
    if not p2:
        powers = p1
    elif not p1:
        powers = p2
    else:
        d = dict(p1)
        for a, k in p2:
            d[a] = d.get(a, 0) + k
        out = []
        for a, k in sorted(d.items()):
            if k == 0:
                continue
            A = Atom.byid[a]
            if A.kind == 'sqrt' and (k > 1 or k < 0):
                q, rr = divmod(k, 2)
                ex = ppow(thaw(A.data), q)
                extra = ex if extra is None else pmul(extra, ex)
                k = rr
            elif A.kind == 'abs' and (k > 1 or k < 0):
                q, rr = divmod(k, 2)
                ex = ppow(thaw(A.data), 2 * q)
                extra = ex if extra is None else pmul(extra, ex)
                k = rr
            elif A.kind == 'fn' and A.data[0] == 'pow' and k > 1 and root_index(A) and k >= root_index(A):
                q, rr = divmod(k, root_index(A))
                ex = ppow(thaw(A.data[1]), q)
                extra = ex if extra is None else pmul(extra, ex)
                k = rr
            elif A.kind == 'bool' and k > 1:
                k = 1
            if k:
                out.append((a, k))
        powers = tuple(out)
    if not e1:
        expo = e2
    elif not e2:
        expo = e1
    else:
        s = padd(thaw(e1), thaw(e2))
        ex, c, s = reduce_expo(s)
        coef = cmulc(coef, c)
        if ex is not None:
            extra = ex if extra is None else pmul(extra, ex)
        expo = freeze(s)
    r = (extra, coef, (powers, expo))
    if len(_monomul) < 2000000:
        _monomul[key] = r
    return r


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > LIMIT * 40:
        raise TooBig()
    r = {}
    extras = []
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            ex, c, m = monomul(m1, m2)
            cc = cmulc(c1, c2)
            if c != (F1, F0):
                cc = cmulc(cc, c)
            if ex is not None:
                extras.append((ex, cc, m))
                continue
            d = r.get(m)
            if d is None:
                r[m] = cc
            else:
                r[m] = (d[0] + cc[0], d[1] + cc[1])
        if len(r) > LIMIT:
            raise TooBig()
    r = {m: c for m, c in r.items() if c[0] != 0 or c[1] != 0}
    if extras:
        groups = {}
        for ex, cc, m in extras:
            k = freeze(ex)
            g = groups.setdefault(k, {})
            d = g.get(m)
            g[m] = cc if d is None else (d[0] + cc[0], d[1] + cc[1])
        for k, g in groups.items():
            g = {m: c for m, c in g.items() if c[0] != 0 or c[1] != 0}
            r = padd(r, pmul(thaw(k), g))
    return r


def ppow(a, n):
    if n < 0:
        return ppow(pinv(a), -n)
    r = ONEP
    base = a
    while n:
        if n & 1:
            r = pmul(r, base)
        n >>= 1
        if n:
            base = pmul(base, base)
    return r


def mono_inv(m, c):
    p, e = m
    d = c[0] * c[0] + c[1] * c[1]
    cc = (c[0] / d, -c[1] / d)
    out = ONEP
    plain = []
    for a, k in p:
        A = Atom.byid[a]
        if A.kind == 'sqrt':
            # 1/sqrt(P) = sqrt(P)/P
            out = pmul(out, pmul(patom(A), pinv(thaw(A.data))))
        elif A.kind == 'inv':
            out = pmul(out, ppow(thaw(A.data), k))
        elif A.kind == 'abs' and k == 1:
            out = pmul(out, pmul(patom(A), pinv(pmul(thaw(A.data), thaw(A.data)))))
        else:
            plain.append((a, -k))
    exn = freeze(pneg(thaw(e))) if e else ()
    return pmul(out, {(tuple(plain), exn): cc})


def lead(p):
    return min(p.items())


def pinv(p):
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        return mono_inv(m, c)
    # clear nested inverses and pull out the monomial content
    content = None
    for (pw, ex) in p:
        d = dict(pw)
        if content is None:
            content = d
        else:
            content = {a: min(k, d.get(a, 0)) if a in d else min(k, 0) for a, k in content.items()}
            for a, k in d.items():
                if a not in content and k < 0:
                    content[a] = k
    content = {a: k for a, k in content.items() if k}
    pre = ONEP
    if content:
        cm = (tuple(sorted(content.items())), ())
        ok = all(Atom.byid[a].kind not in ('sqrt', 'inv', 'abs', 'bool') for a in content)
        if ok:
            ic = mono_inv(cm, (F1, F0))
            p = pmul(p, ic)
            pre = ic
        elif any(Atom.byid[a].kind == 'inv' for a in content):
            inv = [(a, k) for a, k in content.items() if Atom.byid[a].kind == 'inv' and k > 0]
            if inv:
                # p = inv(D)^k * q  ->  1/p = D^k / q
                q = {}
                for (pw, ex), c in p.items():
                    d = dict(pw)
                    for a, k in inv:
                        d[a] -= k
                    q[(tuple(sorted((a, k) for a, k in d.items() if k)), ex)] = c
                D = ONEP
                for a, k in inv:
                    D = pmul(D, ppow(thaw(Atom.byid[a].data), k))
                return pmul(D, pinv(q))
    if len(p) == 1:
        (m, c), = p.items()
        return pmul(pre, mono_inv(m, c))
    # pull out a common exponential factor: use the leading one
    m0, c0 = lead(p)
    if m0[1]:
        f = freeze(pneg(thaw(m0[1])))
        p = pmul(p, {((), f): (F1, F0)})
        pre = pmul(pre, {((), f): (F1, F0)})
        m0, c0 = lead(p)
    d = c0[0] * c0[0] + c0[1] * c0[1]
    ic = (c0[0] / d, -c0[1] / d)
    p = pscale(p, ic)
    pre = pscale(pre, ic)
    fz = freeze(p)
    return pmul(pre, patom(Atom.get('inv', fz)))


# ------------------------------------------------------------- exponentials
def reduce_expo(E):
    """exp(E) = extra * coef * exp(E'), with multiples of i*pi removed and
    inverse trigonometric functions opened"""
    coef = (F1, F0)
    extra = None
    out = {}
    for m, c in E.items():
        pw, ex = m
        if not ex and c[1] != 0:
            ids = dict(pw)
            # i*pi*integers*c
            if ids.get(PIA.id) == 1 and all(a == PIA.id or (Atom.byid[a].integer and k > 0) for a, k in pw):
                alone = len(pw) == 1
                r = c[1] % 2
                if alone:
                    if r == 0:
                        c = (c[0], F0)
                    elif r == 1:
                        coef = cmulc(coef, (-F1, F0)); c = (c[0], F0)
                    elif r == Fraction(1, 2):
                        coef = cmulc(coef, (F0, F1)); c = (c[0], F0)
                    elif r == Fraction(3, 2):
                        coef = cmulc(coef, (F0, -F1)); c = (c[0], F0)
                    else:
                        x = special_angle(r)
                        if x is not None:
                            extra = x if extra is None else pmul(extra, x)
                            c = (c[0], F0)
                        else:
                            c = (c[0], r)
                else:
                    c = (c[0], r)
            elif len(pw) == 1 and pw[0][1] == 1 and Atom.byid[pw[0][0]].kind == 'fn' \
                    and Atom.byid[pw[0][0]].data[0] in ('atan2', 'atan', 'asin', 'acos'):
                A = Atom.byid[pw[0][0]]
                q = c[1]
                n = int(q) if q.denominator == 1 else None
                if n is not None and abs(n) <= 8:
                    x = open_angle(A)
                    x = ppow(x, n) if n > 0 else ppow(conj(x), -n)
                    extra = x if extra is None else pmul(extra, x)
                    c = (c[0], F0)
        if c[0] != 0 or c[1] != 0:
            out[m] = c
    return extra, coef, out


def special_angle(r):
    """exp(i*pi*r) for multiples of 1/4, 1/6"""
    r2 = patom(sqrt_atom(pconst(2)))
    r3 = patom(sqrt_atom(pconst(3)))
    h = Fraction(1, 2)
    n = r * 12
    if n.denominator != 1:
        return None
    n = int(n) % 24
    q, rem = divmod(n, 6)
    base = {0: ONEP, 2: padd(pscale(r3, (h, F0)), {EMPTY: (F0, h)}),
            3: padd(pscale(r2, (h, F0)), pscale(r2, (F0, h))),
            4: padd(pscale(r3, (F0, h)), {EMPTY: (h, F0)})}.get(rem)
    if base is None:
        return None
    rot = [(F1, F0), (F0, F1), (-F1, F0), (F0, -F1)][q]
    return pscale(base, rot)


def open_angle(A):
    """exp(i*angle) as a polynomial"""
    n = A.data[0]
    if n == 'atan2':
        y, x = thaw(A.data[1]), thaw(A.data[2])
        r = psqrt(padd(pmul(x, x), pmul(y, y)))
        return pmul(padd(x, pscale(y, (F0, F1))), pinv(r))
    x = thaw(A.data[1])
    if n == 'atan':
        return pmul(padd(ONEP, pscale(x, (F0, F1))), pinv(psqrt(padd(ONEP, pmul(x, x)))))
    c = psqrt(psub(ONEP, pmul(x, x)))
    if n == 'asin':
        return padd(c, pscale(x, (F0, F1)))
    return padd(x, pscale(c, (F0, F1)))


def conj(p):
    """complex conjugate (atoms are real)"""
    r = {}
    for (pw, ex), c in p.items():
        e2 = {m: (cc[0], -cc[1]) for m, cc in ex}
        m = (pw, freeze(e2))
        r[m] = (c[0], -c[1])
    return r


def pexp(E):
    """exp of a polynomial"""
    extra, coef, E2 = reduce_expo(E)
    r = {((), freeze(E2)): coef}
    if extra is not None:
        r = pmul(extra, r)
    return r


# --------------------------------------------------------------- sqrt/abs
def sqrt_atom(p):
    fz = freeze(p)
    k = ('sqrt', fz)
    if k not in Atom.table:
        # look for an equal argument in another shape
        if needs_match(p):
            for a in Atom.byid:
                if a.kind == 'sqrt' and is_zero_poly(psub(thaw(a.data), p)):
                    Atom.table[k] = a
                    break
    return Atom.get('sqrt', fz, nonneg=True)


def needs_match(p):
    for (pw, ex) in p:
        for a, k in pw:
            if Atom.byid[a].kind in ('inv', 'sqrt', 'abs') or k < 0:
                return True
    return False


_nonneg_hint = []


def psqrt(p):
    if not p:
        return {}
    # clear inverses: sqrt(N/D^2k..) -> try to write p = num * inv^2
    if len(p) == 1:
        (m, c), = p.items()
        pw, ex = m
        if c[1] == 0 and c[0] > 0 and not ex:
            out = ONEP
            rest = []
            for a, k in pw:
                A = Atom.byid[a]
                q, r = divmod(k, 2)
                if q:
                    if A.nonneg or q % 2 == 0 or A.kind == 'pi' or A.kind == 'sqrt':
                        x = ppow(patom(A), q)
                    else:
                        x = ppow(pabs(patom(A)), q)
                    out = pmul(out, x)
                if r:
                    rest.append((a, 1))
            num, den = c[0].numerator, c[0].denominator
            s, t = _sq(num * den)   # sqrt(num/den) = sqrt(num*den)/den
            out = pscale(out, (Fraction(s, den), F0))
            return pmul(pmul(out, int_sqrt(t)), mono_sqrt(rest))
    # pull out even powers of atoms and the positive rational content
    p1, out = pull_square(p)
    if p1 is not p:
        return pmul(out, psqrt(p1))
    s = perfect_square(p)
    if s is not None:
        return pabs(s)
    f = split_factor(p)
    if f is not None:
        return pmul(psqrt(f[0]), psqrt(f[1]))
    return patom(sqrt_atom(p))


def int_sqrt(t):
    """square root of a square-free integer: product of roots of primes"""
    out, f = ONEP, 2
    while f * f <= t and f < 1000:
        if t % f == 0:
            t //= f
            out = pmul(out, patom(sqrt_atom(pconst(f))))
        else:
            f += 1
    return out if t == 1 else pmul(out, patom(sqrt_atom(pconst(t))))


def mono_sqrt(rest):
    out, left = ONEP, []
    for a, k in rest:
        A = Atom.byid[a]
        if A.nonneg or A.kind in ('pi', 'sqrt', 'abs', 'bool'):
            out = pmul(out, patom(sqrt_atom({(((a, k),), ()): (F1, F0)})))
        else:
            left.append((a, k))
    return pmul(out, patom(sqrt_atom({(tuple(left), ()): (F1, F0)}))) if left else out


def root_index(A):
    """n when the atom is x**(1/n)"""
    e = thaw(A.data[2])
    if len(e) == 1 and EMPTY in e and e[EMPTY][1] == 0 and e[EMPTY][0].numerator == 1:
        return e[EMPTY][0].denominator
    return 0


def split_factor(p):
    """p = D*q with D a known radicand that cannot be negative"""
    if len(p) < 3 or len(p) > 80 or any(ex or any(k < 0 for a, k in pw) for (pw, ex) in p):
        return None
    atoms = {a for (pw, ex) in p for a, k in pw}
    n = 0
    for A in list(Atom.byid):
        if A.kind not in ('sqrt', 'inv') or not 1 < len(A.data) < len(p):
            continue
        D = thaw(A.data)
        if any(ex or any(a not in atoms for a, k in pw) for (pw, ex) in D) or not sum_of_squares(D):
            continue
        n += 1
        if n > 40:
            return None
        q = pdiv(p, D)
        if q is not None:
            return D, q
    return None


def pdiv(p, d):
    """exact quotient of polynomials, or None"""
    vs = sorted({a for (pw, ex) in list(p) + list(d) for a, k in pw})
    ix = {a: i for i, a in enumerate(vs)}

    def dense(p):
        r = {}
        for (pw, ex), c in p.items():
            e = [0] * len(vs)
            for a, k in pw:
                e[ix[a]] = k
            r[tuple(e)] = c
        return r
    P, D = dense(p), dense(d)
    ld = max(D)
    dd = D[ld]
    n2 = dd[0] * dd[0] + dd[1] * dd[1]
    inv = (dd[0] / n2, -dd[1] / n2)
    Q = {}
    while P:
        lp = max(P)
        e = tuple(a - b for a, b in zip(lp, ld))
        if min(e) < 0 or len(Q) > 200:
            return None
        c = cmulc(P[lp], inv)
        Q[e] = c
        for m, v in D.items():
            k = tuple(a + b for a, b in zip(m, e))
            o = P.get(k, (F0, F0))
            w = cmulc(v, c)
            o = (o[0] - w[0], o[1] - w[1])
            if o[0] == 0 and o[1] == 0:
                P.pop(k, None)
            else:
                P[k] = o
    return {(tuple((vs[i], k) for i, k in enumerate(e) if k), ()): c for e, c in Q.items()}


def _sq(n):
    """n = s*s*t with t square free (small factors only)"""
    import math
    r = math.isqrt(n)
    if r * r == n:
        return r, 1
    s, t, f = 1, n, 2
    while f * f <= t and f < 1000:
        while t % (f * f) == 0:
            t //= f * f
            s *= f
        f += 1
    r = math.isqrt(t)
    if r * r == t:
        return s * r, 1
    return s, t


def pull_square(p):
    content = None
    for (pw, ex) in p:
        d = dict(pw)
        if content is None:
            content = d
        else:
            content = {a: min(k, d[a]) for a, k in content.items() if a in d}
    out = ONEP
    div_ = []
    for a, k in (content or {}).items():
        A = Atom.byid[a]
        q = k // 2 if k > 0 else -((-k) // 2)
        if A.kind in ('sqrt', 'abs', 'bool'):
            continue
        if q and A.kind == 'inv':
            div_.append((a, 2 * q))
            out = pmul(out, pabs(ppow(patom(A), q)))
        elif q:
            div_.append((a, 2 * q))
            base = patom(A) if (A.nonneg or A.kind == 'pi') else pabs(patom(A))
            out = pmul(out, ppow(base, q))
    # negative powers
    for (pw, ex) in p:
        for a, k in pw:
            A = Atom.byid[a]
            if k < 0 and a not in dict(div_) and A.kind not in ('inv', 'sqrt', 'abs', 'bool'):
                kk = min(dict(pw2).get(a, 0) for (pw2, _) in p)
                q = (-kk + 1) // 2
                div_.append((a, -2 * q))
                base = patom(A) if (A.nonneg or A.kind == 'pi') else pabs(patom(A))
                out = pmul(out, ppow(base, -q))
            elif A.kind == 'inv' and a not in dict(div_) and k > 0:
                # multiply by D^2k
                kk = max(dict(pw2).get(a, 0) for (pw2, _) in p)
                q = (kk + 1) // 2
                D = ppow(thaw(A.data), 2 * q)
                p2 = {}
                for m, c in p.items():
                    d = dict(m[0])
                    e = d.pop(a, 0)
                    rest = {(tuple(sorted(d.items())), m[1]): c}
                    p2 = padd(p2, pmul(rest, ppow(thaw(A.data), 2 * q - e)))
                return p2, pmul(out, ppow(pinv(pabs(thaw(A.data))), q))
    # rational content
    m0, c0 = lead(p)
    if not div_:
        if all(c[1] == 0 for c in p.values()):
            import math
            g = None
            for c in p.values():
                n = abs(c[0])
                g = n if g is None else Fraction(math.gcd(g.numerator * n.denominator, n.numerator * g.denominator), g.denominator * n.denominator)
            if g and g != 1:
                num, den = g.numerator, g.denominator
                # g = g1^2 * rest
                s, t = _sq(num * den)
                # g = (s^2 t)/den^2
                return pscale(p, (1 / g, F0)), pscale(int_sqrt(t), (Fraction(s, den), F0))
        return p, out
    im = {(tuple(sorted((a, -k) for a, k in div_)), ()): (F1, F0)}
    q = {}
    for m, c in p.items():
        d = dict(m[0])
        for a, k in div_:
            d[a] = d.get(a, 0) - k
        q[(tuple(sorted((a, k) for a, k in d.items() if k)), m[1])] = c
    return q, out


def perfect_square(p):
    """q with q*q = p for small polynomials"""
    if len(p) > 60:
        return None
    # candidate: leading terms recursion (polynomial square root)
    try:
        return _poly_sqrt(p)
    except Exception:
        return None


def _degkey(m):
    pw, ex = m
    return (pw, ex)


def _poly_sqrt(p):
    import itertools
    if any(c[1] != 0 for c in p.values()):
        # exponentials: try real trigonometric squares only of the simplest kinds
        return None
    if any(ex for (_, ex) in p):
        return _trig_sqrt(p)
    # square-free test through monomials that are squares
    squares = []
    for (pw, ex), c in p.items():
        if all(k % 2 == 0 for a, k in pw) and c[0] > 0:
            s, t = _sq(c[0].numerator * c[0].denominator)
            if t == 1:
                squares.append(((tuple((a, k // 2) for a, k in pw), ()), Fraction(s, c[0].denominator)))
    n = len(squares)
    if n == 0 or n > 6:
        return None
    for signs in itertools.product((1, -1), repeat=n - 1):
        q = {}
        for (m, c), sg in zip(squares, (1,) + signs):
            q[m] = (c * sg, F0)
        if pmul(q, q) == p:
            return q
    return None


def _trig_sqrt(p):
    """1 - cos^2 and the like come out as a single squared sine/cosine times a monomial:
    p = c*m^2*(1 +- cos(2x))/2"""
    if len(p) != 3:
        return None
    ms = list(p.items())
    plain = [(m, c) for m, c in ms if not m[1]]
    exs = [(m, c) for m, c in ms if m[1]]
    if len(plain) != 1 or len(exs) != 2:
        return None
    (m0, c0), = plain
    (m1, c1), (m2, c2) = exs
    if m0[0] != m1[0] or m0[0] != m2[0] or c1 != c2:
        return None
    if freeze(pneg(thaw(m1[1]))) != m2[1]:
        return None
    half = {m: (c[0] / 2, c[1] / 2) for m, c in m1[1]}
    for s in (1, -1):
        if c1[0] == s * c0[0] / 2:
            # c0*(1 + s*cos(2x)) = 2 c0 cos^2 or 2 c0 sin^2
            e1 = pexp(half)
            e2 = pexp(pneg(half))
            if s == 1:
                f = pscale(padd(e1, e2), (Fraction(1, 2), F0))
            else:
                f = pscale(psub(e1, e2), (F0, -Fraction(1, 2)))
            inner = psqrt({(m0[0], ()): (2 * c0[0], F0)})
            r = pmul(inner, f)
            if pmul(r, r) == p:
                return r
    return None


def pabs(p):
    if not p:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        pw, ex = m
        if c[1] == 0 and not ex:
            if all(Atom.byid[a].nonneg or Atom.byid[a].kind in ('pi', 'sqrt', 'abs', 'bool') or k % 2 == 0 for a, k in pw):
                return {m: (abs(c[0]), F0)}
            if len(pw) == 1 and pw[0][1] == 1:
                A = Atom.byid[pw[0][0]]
                if A.kind == 'inv':
                    return pscale(pinv(pabs(thaw(A.data))), (abs(c[0]), F0))
                return pscale(patom(Atom.get('abs', freeze(patom(A)), integer=A.integer, nonneg=True)), (abs(c[0]), F0))
            out = {EMPTY: (abs(c[0]), F0)}
            for a, k in pw:
                A = Atom.byid[a]
                out = pmul(out, ppow(pabs(patom(A)), k))
            return out
    # common factor of the monomials
    com = None
    for (pw, ex) in p:
        d = {x: y for x, y in pw if y > 0}
        com = d if com is None else {x: min(y, d[x]) for x, y in com.items() if x in d}
        if not com:
            break
    if com:
        q = {}
        for (pw, ex), c in p.items():
            d = dict(pw)
            for x, y in com.items():
                d[x] -= y
            q[(tuple(sorted((x, y) for x, y in d.items() if y)), ex)] = c
        return pmul(pabs({(tuple(sorted(com.items())), ()): (F1, F0)}), pabs(q))
    if positive(p):
        return p
    m0, c0 = lead(p)
    # rational content: by the modulus of the leading coefficient when it is
    # purely real or purely imaginary
    k = F1
    if c0[1] == 0:
        k = c0[0]
    elif c0[0] == 0:
        k = c0[1]
    if k != 1:
        p = pscale(p, (1 / k, F0))
    k = abs(k)
    if sum_of_squares(p):
        return pscale(p, (k, F0))
    if sum_of_squares(pneg(p)):
        return pscale(pneg(p), (k, F0))
    return pscale(patom(Atom.get('abs', freeze(p), nonneg=True)), (k, F0))


def sum_of_squares(p):
    return all(c[1] == 0 and c[0] > 0 and not ex and
               all(k % 2 == 0 or Atom.byid[a].nonneg or Atom.byid[a].kind == 'pi' for a, k in pw)
               for (pw, ex), c in p.items())


# --------------------------------------------------------------- from terms
class Ctx:
    """normalisation context: equations known (assumed) between terms"""

    def __init__(self, nonneg=(), known=None):
        self.memo = {}
        self.nonneg = set(nonneg)     # ids of terms known to be >= 0
        self.known = known or {}      # id of boolean term -> True/False


def poly(t, ctx=None):
    ctx = ctx or Ctx()
    if isinstance(t, CTerm):
        return padd(poly(t.re, ctx), pscale(poly(t.im, ctx), (F0, F1)))
    memo = ctx.memo
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.op == 'ite' and x.args[0].id in ctx.known:
            b = x.args[1] if ctx.known[x.args[0].id] else x.args[2]
            if b.id in memo:
                memo[x.id] = memo[b.id]
                stack.pop()
            else:
                stack.append(b)
            continue
        if x.op in ('sum', 'exists'):
            kids = [x.args[2]] if x.op == 'sum' else []
        elif x.kind == 'B' and x.op not in ('var',):
            kids = []
        elif x.op in ('minover', 'maxover', 'argover'):
            kids = [x.args[-1]] if x.args[-1].kind != 'B' else []
        elif x.op == 'ite':
            kids = [x.args[1], x.args[2]]
        else:
            kids = [c for c in T.children(x)]
        todo = [c for c in kids if c.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[x.id] = _poly1(x, ctx)
        stack.pop()
    return memo[t.id]


def _atomvar(x, ctx):
    return Atom.get('var', x.id, x, integer=(x.kind == 'I'), nonneg=(x.id in ctx.nonneg))


def _poly1(x, ctx):
    g = lambda y: ctx.memo[y.id]
    op, a = x.op, x.args
    if op == 'const':
        return pconst(a[0])
    if op == 'pi':
        return patom(PIA)
    if op == 'var':
        if x.kind == 'B':
            raise Unsupported('boolean in arithmetic')
        return patom(_atomvar(x, ctx))
    if op in ('nan', 'inf'):
        return patom(Atom.get('var', x.id, x))
    if op == 'add':
        return padd(g(a[0]), g(a[1]))
    if op == 'mul':
        return pmul(g(a[0]), g(a[1]))
    if op == 'div':
        try:
            return pmul(g(a[0]), pinv(g(a[1])))
        except ZeroDivisionError:
            return patom(Atom.get('var', T.NAN.id, T.NAN))
    if op == 'ipow':
        return ppow(g(a[0]), a[1])
    if op == 'toreal':
        return g(a[0])
    if op == 'floor':
        return pfloor(g(a[0]), x)
    if op == 'fn':
        if a[0] == 'sqrt' and a[1].op == 'ipow' and a[1].args[1] % 2 == 0 and not SHALLOW[0] \
                and a[1].args[0].id in ctx.memo:
            return ppow(pabs(ctx.memo[a[1].args[0].id]), a[1].args[1] // 2)
        return pfn(a[0], [g(y) for y in a[1:]], x, ctx)
    if op == 'app':
        return papp(a[0], [g(y) for y in a[1:]], x, ctx)
    if op == 'sum':
        return psum(a[0], a[1], g(a[2]), ctx)
    if op in ('minover', 'maxover', 'argover'):
        # determined by the body, up to its normal form
        return patom(Atom.get('over', (op,) + a[:-2] + ((a[-2].id, freeze(g(a[-1]))) if a[-1].kind != 'B' else (a[-1].id,)), x, integer=x.kind == 'I'))
    if op == 'ite':
        p, q = g(a[1]), g(a[2])
        if p == q:
            return p
        return patom(Atom.get('ite', (a[0].id, freeze(p), freeze(q)), x, integer=x.kind == 'I'))
    if x.kind == 'B':
        raise Unsupported('boolean in arithmetic')
    raise Unsupported('normal form of ' + op)


def papp(name, ps, x, ctx):
    key = (name,) + tuple(freeze(p) for p in ps)
    if ('app', key) not in Atom.table and any(needs_match(p) for p in ps):
        for A in Atom.byid:
            if A.kind == 'app' and A.data[0] == name and len(A.data) == len(key) and \
                    all(is_zero_poly(psub(thaw(u), p)) for u, p in zip(A.data[1:], ps)):
                Atom.table[('app', key)] = A
                break
    return patom(Atom.get('app', key, x, integer=x.kind == 'I', nonneg=x.id in ctx.nonneg or _declared_nonneg(name)))


def _declared_nonneg(name):
    from .contract import BOUNDS
    b = BOUNDS.get(name)
    return b is not None and b[0] is not None and isinstance(b[0], (int, float)) and b[0] >= 0


def pfloor(p, x):
    """floor: integer summands with integer coefficients move out"""
    out = {}
    rest = {}
    for m, c in p.items():
        pw, ex = m
        if not ex and c[1] == 0 and c[0].denominator == 1 and all(Atom.byid[a].integer and k > 0 for a, k in pw):
            out[m] = c
        elif m == EMPTY and c[1] == 0:
            n = c[0].numerator // c[0].denominator
            if n:
                out[m] = (Fraction(n), F0)
            if c[0] - n:
                rest[m] = (c[0] - n, F0)
        else:
            rest[m] = c
    if not rest or is_const(rest):
        return out
    fz = freeze(rest)
    k = ('floor', fz)
    if k not in Atom.table and needs_match(rest):
        for A in Atom.byid:
            if A.kind == 'floor' and is_zero_poly(psub(thaw(A.data), rest)):
                Atom.table[k] = A
                break
    return padd(out, patom(Atom.get('floor', fz, x, integer=True)))


HALF = Fraction(1, 2)


def pcos(p):
    e = {m: (-c[1], c[0]) for m, c in p.items()}
    u = pexp(e)
    v = pexp(pneg(e))
    return pscale(padd(u, v), (HALF, F0))


def psin(p):
    e = {m: (-c[1], c[0]) for m, c in p.items()}
    u = pexp(e)
    v = pexp(pneg(e))
    return pscale(psub(u, v), (F0, -HALF))


def odd_sign(p):
    """leading coefficient negative?"""
    m, c = lead(p)
    return c[0] < 0 or (c[0] == 0 and c[1] < 0)


SHALLOW = [False]
ODD = ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh')
EVEN = ('cos', 'abs', 'cosh')


def unwrap(p):
    """inside a sine or cosine, k*atan2(sin q, cos q) is k*q for whole k"""
    out = None
    for m, c in p.items():
        pw, ex = m
        if not ex and len(pw) == 1 and pw[0][1] == 1 and c[1] == 0 and c[0].denominator == 1:
            A = Atom.byid[pw[0][0]]
            if A.kind == 'fn' and A.data[0] == 's:atan2':
                y, z = thaw(A.data[1]), thaw(A.data[2])
                ys, zs = single(y), single(z)
                sign = 1
                if ys and zs and ys.kind == zs.kind == 'fn' and ys.data[0] == 's:sin' and zs.data[0] == 's:cos':
                    k = list(y.values())[0][0]
                    if list(z.values())[0] == (F1, F0) and abs(k) == 1:
                        q = thaw(ys.data[1])
                        r = thaw(zs.data[1])
                        if q == r:
                            sign = k
                        elif q == pneg(r):
                            q, sign = q, k
                        else:
                            continue
                        out = dict(p) if out is None else out
                        out.pop(m)
                        out = padd(out, pscale(q, (c[0] * sign, F0)))
    return p if out is None else unwrap(out)


def single(p):
    """the atom of a polynomial +-atom"""
    if len(p) == 1:
        ((pw, ex), c), = p.items()
        if not ex and len(pw) == 1 and pw[0][1] == 1:
            return Atom.byid[pw[0][0]]
    return None


def shallow_fn(n, ps, x, ctx):
    """functions as uninterpreted symbols (up to parity): a cheap first try"""
    p = ps[0]
    if n == 'abs' and x.args[1].id in ctx.nonneg:
        return p
    if n in ('sin', 'cos', 'tan'):
        p = unwrap(p)
        ps = [p]
    neg = False
    if n in ODD + EVEN and p and odd_sign(p):
        p = pneg(p)
        ps = [p]
        neg = n in ODD
    if not p and n in ODD:
        return {}
    a = patom(Atom.get('fn', ('s:' + n,) + tuple(freeze(q) for q in ps), x))
    return pneg(a) if neg else a


def positive(p):
    """a lower bound of a real trigonometric polynomial is positive"""
    lo = F0
    for (pw, ex), c in p.items():
        if pw:
            return False
        if not ex:
            if c[1] != 0:
                return False
            lo += c[0]
        else:
            if any(cc[0] != 0 or any(Atom.byid[a].kind not in ('pi', 'var', 'app') for a, _ in m[0]) for m, cc in ex):
                return False
            lo -= abs(c[0]) + abs(c[1])
    return lo > 0


def pfn(n, ps, x, ctx):
    if SHALLOW[0]:
        return shallow_fn(n, ps, x, ctx)
    p = ps[0]
    if n == 'atan2' and positive(ps[1]):
        return pfn('atan', [pmul(p, pinv(ps[1]))], x, ctx) if p else {}
    if n == 'sin':
        return psin(p)
    if n == 'cos':
        return pcos(p)
    if n == 'tan':
        return pmul(psin(p), pinv(pcos(p)))
    if n == 'exp':
        return pexp(p)
    if n == 'sqrt':
        return psqrt(p)
    if n == 'abs':
        if x.args[1].id in ctx.nonneg:
            return p
        return pabs(p)
    if n in ('asin', 'atan') and p and odd_sign(p):
        return pneg(pfn(n, [pneg(p)], x, ctx))
    if n == 'acos' and p and odd_sign(p):
        return psub(patom(PIA), pfn(n, [pneg(p)], x, ctx))
    if n in ('sinh', 'cosh', 'tanh'):
        u, v = pexp(p), pexp(pneg(p))
        s = pscale(psub(u, v), (HALF, F0))
        c = pscale(padd(u, v), (HALF, F0))
        return s if n == 'sinh' else c if n == 'cosh' else pmul(s, pinv(c))
    key = (n,) + tuple(freeze(q) for q in ps)
    if ('fn', key) not in Atom.table and any(needs_match(q) for q in ps):
        for A in Atom.byid:
            if A.kind == 'fn' and A.data[0] == n and len(A.data) == len(key) and \
                    all(is_zero_poly(psub(thaw(u), q)) for u, q in zip(A.data[1:], ps)):
                Atom.table[('fn', key)] = A
                break
    return patom(Atom.get('fn', key, x))


def psum(dim, bvar, body, ctx):
    """linear: factors free of the bound variable come out; the rest of each
    monomial is an atom keyed by the canonical index"""
    out = {}
    bid = bvar.id
    dpoly = poly(dim_size(dim), ctx)
    can = T.var('%idx:' + str(dim), 'I')
    for (pw, ex), c in body.items():
        free = []
        bound = []
        for a, k in pw:
            (bound if atom_has(a, bid) else free).append((a, k))
        exf = [(m, cc) for m, cc in ex if not mono_has(m, bid)]
        exb = [(m, cc) for m, cc in ex if mono_has(m, bid)]
        fp = {(tuple(free), tuple(exf)): c}
        if not bound and not exb:
            out = padd(out, pmul(fp, dpoly))
            continue
        bm = (tuple(bound), tuple(exb))
        bm2 = rename_mono(bm, bvar, can, ctx)
        if len(bm2) != 1:
            inner = patom(Atom.get('sum', (str(dim), freeze(bm2))))
            cc = (F1, F0)
        else:
            (mm, cc), = bm2.items()
            inner = patom(Atom.get('sum', (str(dim), mm)))
        out = padd(out, pscale(pmul(fp, inner), cc))
    return out


def dim_size(dim):
    return dim.term if hasattr(dim, 'term') else T.lift(dim)


_has_memo = {}


def atom_has(aid, vid):
    k = (aid, vid)
    r = _has_memo.get(k)
    if r is None:
        A = Atom.byid[aid]
        if A.kind == 'var':
            r = A.data == vid
        elif A.kind == 'pi':
            r = False
        elif A.kind in ('sqrt', 'inv', 'abs', 'floor'):
            r = any(mono_has(m, vid) for m, c in A.data)
        elif A.kind in ('fn', 'app'):
            r = any(mono_has(m, vid) for p in A.data[1:] for m, c in p)
        elif A.kind == 'ite':
            r = vid in T.freevars(A.term)
        elif A.kind == 'sum':
            d = A.data[1]
            r = mono_has(d, vid) if isinstance(d, tuple) and len(d) == 2 and _is_mono(d) else any(mono_has(m, vid) for m, c in d)
        else:
            r = A.term is not None and vid in T.freevars(A.term)
        _has_memo[k] = r
    return r


def _is_mono(d):
    # a mono is (powers, expo); a frozen polynomial is a tuple of (mono, coef)
    try:
        return all(isinstance(a, int) for a, k in d[0])
    except Exception:
        return False


def mono_has(m, vid):
    return any(atom_has(a, vid) for a, k in m[0]) or any(mono_has(mm, vid) for mm, c in m[1])


def rename_mono(m, v, w, ctx):
    """the monomial with variable v replaced by w, as a polynomial"""
    out = ONEP
    for a, k in m[0]:
        out = pmul(out, ppow(rename_atom(a, v, w, ctx), k))
    if m[1]:
        E = {}
        for mm, c in m[1]:
            E = padd(E, pscale(rename_mono(mm, v, w, ctx), c))
        out = pmul(out, pexp(E))
    return out


def rename_poly(fz, v, w, ctx):
    out = {}
    for m, c in fz:
        out = padd(out, pscale(rename_mono(m, v, w, ctx), c))
    return out


def rename_atom(aid, v, w, ctx):
    if not atom_has(aid, v.id):
        return patom(Atom.byid[aid])
    A = Atom.byid[aid]
    if A.kind == 'var':
        return poly(w, ctx)
    if A.kind == 'sqrt':
        return psqrt(rename_poly(A.data, v, w, ctx))
    if A.kind == 'abs':
        return pabs(rename_poly(A.data, v, w, ctx))
    if A.kind == 'inv':
        return pinv(rename_poly(A.data, v, w, ctx))
    if A.term is not None:
        return poly(T.subst(A.term, {v: w}), ctx)
    if A.kind == 'sum':
        d = A.data[1]
        if _is_mono(d):
            p = rename_mono(d, v, w, ctx)
        else:
            p = rename_poly(d, v, w, ctx)
        return patom(Atom.get('sum', (A.data[0], freeze(p))))
    raise Unsupported('rename')


# --------------------------------------------------------------- zero test
def clear(p):
    """multiply out the inverse atoms; the result is zero iff p is"""
    for _ in range(60):
        if not p:
            return p
        best = None
        for (pw, ex) in p:
            for a, k in pw:
                if Atom.byid[a].kind == 'inv' and k > 0:
                    if best is None or len(Atom.byid[a].data) < len(Atom.byid[best].data):
                        best = a
        if best is None:
            # negative powers of plain atoms are harmless (Laurent monomials)
            return p
        A = Atom.byid[best]
        kmax = max(dict(pw).get(best, 0) for (pw, ex) in p)
        groups = {}
        for (pw, ex), c in p.items():
            d = dict(pw)
            k = d.pop(best, 0)
            g = groups.setdefault(kmax - k, {})
            g[(tuple(sorted(d.items())), ex)] = c
        out = {}
        D = thaw(A.data)
        for k, g in groups.items():
            out = padd(out, pmul(ppow(D, k), g))
        p = out
    return p


def is_zero_poly(p):
    return not clear(p)


def is_zero(t, ctx=None):
    c = ctx or Ctx()
    SHALLOW[0] = True
    try:
        if not poly(t, Ctx(nonneg=c.nonneg, known=c.known)):
            return True
    except (TooBig, Unsupported, ZeroDivisionError):
        pass
    finally:
        SHALLOW[0] = False
    return is_zero_poly(poly(t, ctx))


def show_poly(p, n=8):
    def sm(m):
        s = '*'.join('%s^%d' % (sa(a), k) if k != 1 else sa(a) for a, k in m[0])
        if m[1]:
            s += '*exp(' + ' + '.join('%s*%s' % (sc(c), sm(mm)) for mm, c in m[1]) + ')'
        return s or '1'

    def sa(a):
        A = Atom.byid[a]
        if A.kind == 'pi':
            return 'pi'
        if A.term is not None:
            return T.show(A.term, 5)
        if A.kind in ('sqrt', 'inv', 'abs', 'floor'):
            return '%s[%s]' % (A.kind, show_poly(thaw(A.data), 4))
        if A.kind == 'sum':
            d = A.data[1]
            return 'sum_%s[%s]' % (A.data[0], sm(d) if _is_mono(d) else show_poly(thaw(d), 3))
        return repr(A)

    def sc(c):
        if c[1] == 0:
            return str(c[0]) if len(str(c[0])) < 24 else repr(float(c[0]))
        return '(%s+%si)' % c
    items = list(p.items())
    s = ' + '.join('%s*%s' % (sc(c), sm(m)) for m, c in items[:n])
    return s + (' + ... (%d terms)' % len(items) if len(items) > n else '')
