"""Abstract value domains: hash-consed terms, reduced ordered decision diagrams for booleans,
and a ring normal form (multivariate polynomials over hash-consed atoms, modulo the defining
relations of boolean atoms, zero tests and inverses)."""
from fractions import Fraction


# ---------------------------------------------------------------- terms (value numbers)
class Term:
    __slots__ = ("op", "args", "id", "w")

    def __repr__(self):
        return show(self)


_terms = {}
_all = []


def T(op, *args, w=None):
    k = (op, args, w)
    t = _terms.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.w = w
        t.id = len(_all)
        _terms[k] = t
        _all.append(t)
    return t


def show(t, d=0):
    if isinstance(t, Term):
        if not t.args:
            return str(t.op)
        if d > 5:
            return "…"
        return "%s(%s)" % (t.op, ",".join(show(a, d + 1) for a in t.args))
    if isinstance(t, Poly):
        return t.show(d)
    if isinstance(t, B):
        return t.show(d)
    if isinstance(t, tuple):
        return "(" + ",".join(show(a, d + 1) for a in t) + ")"
    return str(t)


# ---------------------------------------------------------------- booleans (ROBDD)
class B:
    __slots__ = ("v", "lo", "hi", "id")

    def __repr__(self):
        return self.show(0)

    def show(self, d=0):
        if self.v is None:
            return "⊤" if self is TRUE else "⊥"
        if d > 4:
            return "…"
        a = show(_all[self.v], d + 1)
        if self.hi is TRUE and self.lo is FALSE:
            return "[%s]" % a
        if self.hi is FALSE and self.lo is TRUE:
            return "![%s]" % a
        return "([%s]?%s:%s)" % (a, self.hi.show(d + 1), self.lo.show(d + 1))


def _leaf(i):
    b = B()
    b.v = None
    b.lo = b.hi = None
    b.id = i
    return b


FALSE = _leaf(0)
TRUE = _leaf(1)
_bn = {}
_bcount = [2]


def mk(v, lo, hi):
    if lo is hi:
        return lo
    k = (v, lo.id, hi.id)
    n = _bn.get(k)
    if n is None:
        n = B()
        n.v, n.lo, n.hi = v, lo, hi
        n.id = _bcount[0]
        _bcount[0] += 1
        _bn[k] = n
    return n


def bvar(t):
    """boolean atom for a term"""
    return mk(t.id, FALSE, TRUE)


_ite = {}


class TooBig(Exception):
    pass


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _ite.get(k)
    if r is not None:
        return r
    v = f.v
    if g.v is not None and g.v < v:
        v = g.v
    if h.v is not None and h.v < v:
        v = h.v

    def co(x, b):
        if x.v == v:
            return x.hi if b else x.lo
        return x

    r = mk(v, bite(co(f, 0), co(g, 0), co(h, 0)), bite(co(f, 1), co(g, 1), co(h, 1)))
    _ite[k] = r
    return r


def band(a, b):
    return bite(a, b, FALSE)


def bor(a, b):
    return bite(a, TRUE, b)


def bnot(a):
    return bite(a, FALSE, TRUE)


def bxor(a, b):
    return bite(a, bnot(b), b)


def beq(a, b):
    return bite(a, b, bnot(b))


def tob(x):
    if isinstance(x, B):
        return x
    if x is True or (isinstance(x, int) and x == 1):
        return TRUE
    if x is False or (isinstance(x, int) and x == 0):
        return FALSE
    if isinstance(x, Term):
        return bvar(T("tobool", x))
    raise TypeError("tob %r" % (x,))


def bsupport(b, acc=None):
    acc = set() if acc is None else acc
    seen = set()

    def go(x):
        if x.v is None or x.id in seen:
            return
        seen.add(x.id)
        acc.add(x.v)
        go(x.lo)
        go(x.hi)

    go(b)
    return acc


def implies(pc, c):
    return band(pc, bnot(c)) is FALSE


def brestrict(b, assign):
    """cofactor by {var: bool}"""
    memo = {}

    def go(x):
        if x.v is None:
            return x
        r = memo.get(x.id)
        if r is None:
            if x.v in assign:
                r = go(x.hi if assign[x.v] else x.lo)
            else:
                r = bite(bvar(_all[x.v]), go(x.hi), go(x.lo))
            memo[x.id] = r
        return r

    return go(b)


# ---------------------------------------------------------------- polynomials
# monomial: tuple of (atom id, exp) sorted by atom id. coefficient: int or Fraction.
MOD = None  # when set, coefficients are residues
IDEM = set()  # atom ids a with a*a = a
PAIR = {}  # atom <-> its inverse, for atoms that are never zero
NONZERO = set()  # atoms that are never zero
INVOF = {}  # inverse atom id -> (poly p, zero-test poly z, lead monomial)
LEADS = {}  # atom id appearing in some lead monomial -> set(inverse atom id)
ZOF = {}  # zero-test boolean-atom id -> inverse-like (poly)
SQRTOF = {}  # sqrt atom id -> (poly p, b2f(issquare(p)))   s*s = p when square


def norm_c(c):
    if c.__class__ is int and MOD is None:
        return c
    if MOD is not None:
        if isinstance(c, Fraction):
            return c.numerator % MOD * pow(c.denominator, -1, MOD) % MOD
        return c % MOD
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def cinv(c):
    if MOD is not None:
        return pow(c, -1, MOD)
    if c in (1, -1):
        return c
    return norm_c(Fraction(1) / c)


class Poly:
    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = m
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.m == o.m)

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        return self.m.get((), 0)

    def is_zero(self):
        return not self.m

    def __add__(self, o):
        o = P(o)
        if len(self.m) < len(o.m):
            self, o = o, self
        r = dict(self.m)
        for k, c in o.m.items():
            n = norm_c(r.get(k, 0) + c)
            if n == 0:
                r.pop(k, None)
            else:
                r[k] = n
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: norm_c(-c) for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def scale(self, c):
        c = norm_c(c)
        if c == 0:
            return ZERO
        r = {}
        for k, d in self.m.items():
            n = norm_c(c * d)
            if n != 0:
                r[k] = n
        return Poly(r)

    def __mul__(self, o):
        if isinstance(o, (int, Fraction)):
            return self.scale(o)
        return pmul(self, o)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        return {a for k in self.m for a, _ in k}

    def show(self, d=0):
        if not self.m:
            return "0"
        out = []
        for k, c in sorted(self.m.items(), key=lambda x: (len(x[0]), x[0]))[:12]:
            s = "*".join(
                show(_all[a], d + 1) + ("^%d" % e if e > 1 else "") for a, e in k
            )
            if MOD is not None and isinstance(c, int) and c > MOD // 2:
                c = c - MOD
            if s:
                out.append(s if c == 1 else "-" + s if c == -1 else "%s*%s" % (c, s))
            else:
                out.append(str(c))
        if len(self.m) > 12:
            out.append("…(%d terms)" % len(self.m))
        return " + ".join(out)

    def __repr__(self):
        return self.show()


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        x = norm_c(x)
        return Poly({(): x}) if x != 0 else ZERO
    if isinstance(x, Term):
        return Poly({((x.id, 1),): 1})
    raise TypeError("P(%r)" % (x,))


def atom(x):
    return Poly({((x.id, 1),): 1})


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    for k in d:
        if k in IDEM and d[k] > 1:
            d[k] = 1
    if PAIR:
        for k, _ in b:
            j = PAIR.get(k)
            if j in d and k in d:
                e = min(d[k], d[j])
                for x in (j, k):
                    if d[x] == e:
                        del d[x]
                    else:
                        d[x] -= e
    return tuple(sorted(d.items()))


LIMIT = 4000
CUT = {}


class Blowup(Exception):
    pass


def pmul(a, b):
    if len(a.m) * len(b.m) > LIMIT * 50:
        raise Blowup("polynomial too large %d x %d" % (len(a.m), len(b.m)))
    r = {}
    special = INVOF or SQRTOF
    for ka, ca in a.m.items():
        for kb, cb in b.m.items():
            k = mmul(ka, kb)
            n = norm_c(r.get(k, 0) + ca * cb)
            if n == 0:
                r.pop(k, None)
            else:
                r[k] = n
    p = Poly(r)
    if special:
        p = reduce_poly(p)
    return p


def mdiv(k, l):
    """monomial k / l or None"""
    d = dict(k)
    for a, e in l:
        x = d.get(a, 0) - e
        if x < 0:
            return None
        if x == 0:
            del d[a]
        else:
            d[a] = x
    return tuple(sorted(d.items()))


def mord(k):
    return (sum(e for _, e in k), tuple((-a, e) for a, e in k))


def lead(p):
    """leading monomial for rewriting: highest by degree then newest atoms"""
    return max(p.m, key=lambda k: (sum(e for _, e in k), sorted(((a, e) for a, e in k), reverse=True)))


def reduce_poly(p):
    for _ in range(10000):
        hit = None
        for k in p.m:
            for a, e in k:
                if a in INVOF:
                    (q, z, lm, zid) = INVOF[a]
                    rest = mdiv(k, tuple(sorted(((a, 1),) + lm)) if all(x != a for x, _ in lm) else lm)
                    if rest is not None:
                        # lm*I = 1 - z - (q-lm)*I
                        hit = (k, rest, ONE - z - mono_mul_nored(q - Poly({lm: 1}), ((a, 1),)))
                        break
                    if zid is not None:
                        rest = mdiv(k, tuple(sorted(((a, 1), (zid, 1)))))
                        if rest is not None:
                            hit = (k, rest, ZERO)
                            break
                if a in ZOF:
                    q, lm = ZOF[a]
                    rest = mdiv(k, tuple(sorted(((a, 1),) + lm)))
                    if rest is not None:
                        hit = (k, rest, -mono_mul_nored(q - Poly({lm: 1}), ((a, 1),)))
                        break
                if a in SQRTOF and e >= (5 if type(SQRTOF[a]) is tuple else 2):
                    q = SQRTOF[a]
                    n = 2
                    if type(q) is tuple:
                        n, q = q
                    rest = mdiv(k, ((a, n),))
                    if rest is not None:
                        hit = (k, rest, q)
                        break
            if hit:
                break
        if not hit:
            return p
        k, rest, rhs = hit
        c = p.m[k]
        r = dict(p.m)
        del r[k]
        p = Poly(r) + mono_mul_nored(rhs, rest).scale(c)
    raise Blowup("reduction does not terminate")


def mono_mul_nored(p, mono):
    r = {}
    for k, c in p.m.items():
        kk = mmul(k, mono)
        n = norm_c(r.get(kk, 0) + c)
        if n == 0:
            r.pop(kk, None)
        else:
            r[kk] = n
    return Poly(r)


def b2f(b):
    """0/1 field embedding of a boolean, as a multilinear polynomial"""
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    memo = {}

    def go(x):
        if x is TRUE:
            return ONE
        if x is FALSE:
            return ZERO
        r = memo.get(x.id)
        if r is None:
            IDEM.add(x.v)
            a = Poly({((x.v, 1),): 1})
            lo, hi = go(x.lo), go(x.hi)
            r = lo + a * (hi - lo)
            memo[x.id] = r
        return r

    return go(b)


def monic(p):
    """(leading coefficient, monic poly)"""
    lm = lead(p)
    c = p.m[lm]
    if c == 1:
        return 1, p
    return c, p.scale(cinv(c))


def iszero(p):
    """boolean [p == 0]"""
    p = P(p)
    if p.is_const():
        return TRUE if p.is_zero() else FALSE
    # monomial: product is zero iff a factor is
    if len(p.m) == 1:
        (k, c), = p.m.items()
        r = FALSE
        for a, e in k:
            r = bor(r, atom_iszero(a))
        return r
    # linear in one boolean atom with constants?
    ats = p.atoms()
    if len(ats) <= 3 and all(a in IDEM and a not in ZOF for a in ats) or (
        len(ats) <= 3 and all(a in IDEM for a in ats)
    ):
        return enum_bool_zero(p, sorted(ats))
    _, q = monic(p)
    t = T("iszero", q)
    if t.id not in ZOF:
        IDEM.add(t.id)
        ZOF[t.id] = (q, lead(q))
    return bvar(t)


def enum_bool_zero(p, ats):
    if not ats:
        return TRUE if p.is_zero() else FALSE
    a = ats[0]
    p0 = subst_atom(p, a, ZERO)
    p1 = subst_atom(p, a, ONE)
    return bite(bvar(_all[a]), enum_bool_zero(p1, ats[1:]), enum_bool_zero(p0, ats[1:]))


def atom_iszero(a):
    if a in IDEM:
        return bnot(bvar(_all[a]))
    if a in INVOF:
        q, z, lm, zid = INVOF[a]
        return iszero(q)
    if a in NONZERO:
        return FALSE
    t = T("iszero", Poly({((a, 1),): 1}))
    if t.id not in ZOF:
        IDEM.add(t.id)
        ZOF[t.id] = (Poly({((a, 1),): 1}), ((a, 1),))
    return bvar(t)


def inv0(p):
    """inverse with inv0(0) = 0"""
    p = P(p)
    if p.is_const():
        return P(cinv(p.const())) if not p.is_zero() else ZERO
    if len(p.m) == 1:
        (k, c), = p.m.items()
        r = P(cinv(c))
        for a, e in k:
            if a in IDEM:
                x = Poly({((a, 1),): 1})
            elif a in INVOF:
                x = INVOF[a][0]
            elif a in PAIR:
                x = Poly({((PAIR[a], 1),): 1})
            elif a in NONZERO:
                t = T("inv", Poly({((a, 1),): 1}))
                PAIR[a], PAIR[t.id] = t.id, a
                NONZERO.add(t.id)
                x = Poly({((t.id, 1),): 1})
            else:
                x = _invatom(Poly({((a, 1),): 1}))
            for _ in range(e):
                r = r * x
        return r
    c, q = monic(p)
    return _invatom(q).scale(cinv(c))


def _invatom(q):
    t = T("inv", q)
    if t.id not in INVOF:
        zb = iszero(q)
        z = b2f(zb)
        zid = None
        if len(z.m) == 1:
            (k, c), = z.m.items()
            if c == 1 and len(k) == 1:
                zid = k[0][0]
        INVOF[t.id] = (q, z, lead(q), zid)
    return Poly({((t.id, 1),): 1})


def subst_atom(p, a, q):
    out = ZERO
    for k, c in p.m.items():
        e = dict(k).get(a, 0)
        if not e:
            out = out + Poly({k: c})
        else:
            rest = tuple(x for x in k if x[0] != a)
            out = out + (Poly({rest: c}) * (q ** e))
    return out


def subst(p, mp):
    """simultaneous substitution of atoms (id -> Poly)"""
    out = {}
    acc = ZERO
    for k, c in p.m.items():
        hit = False
        q = Poly({(): c})
        rest = []
        for a, e in k:
            if a in mp:
                hit = True
                q = q * (mp[a] ** e)
            else:
                rest.append((a, e))
        if not hit:
            out[k] = c
        else:
            acc = acc + mono_mul(q, tuple(rest))
    return Poly(out) + acc


def mono_mul(p, mono):
    return pmul(p, Poly({mono: 1}))


def numer_zero(p, nonzero=True):
    """Decide p == 0 as a rational function, assuming every inverted quantity is non-zero
    (all zero-test booleans of inverted quantities false)."""
    p = P(p)
    # assume z = 0
    zs = {zid: ZERO for (q, z, lm, zid) in INVOF.values() if zid is not None}
    p = subst(p, {a: v for a, v in zs.items() if a in p.atoms()})
    for _ in range(200):
        if p.is_zero():
            return True
        inv = [a for a in p.atoms() if a in INVOF]
        if not inv:
            return p.is_zero()
        a = max(inv)
        q = INVOF[a][0]
        e = max(dict(k).get(a, 0) for k in p.m)
        out = ZERO
        for k, c in p.m.items():
            x = dict(k).get(a, 0)
            rest = tuple(y for y in k if y[0] != a)
            out = out + pmul(Poly({rest: c}), q ** (e - x))
        p = subst(out, {b: v for b, v in zs.items() if b in out.atoms()})
    raise Blowup("numer")


def reset():
    for d in (_terms, _bn, _ite, INVOF, LEADS, ZOF, SQRTOF):
        d.clear()
    IDEM.clear()
    NONZERO.clear()
    PAIR.clear()
    _all.clear()
