"""Exact integer domain for machine words: every word is an integer polynomial over integer-valued
atoms (input limbs, floor quotients, boolean borrows/carries), with an interval.  Truncations and
shifts introduce floor atoms, so no carry can be lost silently: x as u64 = x - 2^64 * floor(x/2^64).
Range and congruence obligations on results are decided by polynomial normal forms, a change of basis
between quotients and remainders, and interval evaluation; the only case distinctions are on the
boolean atoms that remain in the result."""
from fractions import Fraction
from .terms import *
from . import terms as tm
from .intdom import WordDom, mask

INF = None


class Z:
    """integer polynomial with interval"""
    __slots__ = ("m", "lo", "hi", "d")

    def __init__(self, d, m, lo, hi):
        self.d, self.m, self.lo, self.hi = d, m, lo, hi

    def __eq__(self, o):
        return isinstance(o, Z) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def __repr__(self):
        return "Z(%s)[%s..%s]" % (self.d.show(self.m), hex(self.lo), hex(self.hi))

    def join(self, I, c, b):
        return self.d.ite(c, self, b)


class Atom:
    __slots__ = ("id", "kind", "lo", "hi", "v", "s", "req", "stages", "c", "data", "group")


def madd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c * k
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def mscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


class LimbDom(WordDom):
    word = Z

    def __init__(self):
        self.at = []
        self.fl = {}
        self.boolof = {}   # term id -> atom id of a boolean
        self.eqs = {}
        self.groups = []   # (atoms, weights, lo, hi, residue or None)
        self.lof = {}
        self.alt = {}      # sums with a truncated operand: the same sum before that truncation
        self.feas = {}
        self.rng = {}      # truncations met so far

    # ------------------------------------------------------------ atoms and polynomials
    def atom(self, kind, lo, hi, **k):
        a = Atom()
        a.id = len(self.at)
        a.kind, a.lo, a.hi = kind, lo, hi
        a.v = a.s = a.data = a.group = None
        a.req = False
        a.stages = ()
        a.c = 0
        for n, x in k.items():
            setattr(a, n, x)
        self.at.append(a)
        return a

    def isbool(self, i):
        return self.at[i].kind in ("B", "E", "b")

    def mul(self, a, b):
        r = {}
        for m, c in a.items():
            for n, e in b.items():
                if not m:
                    k = n
                elif not n:
                    k = m
                else:
                    l = sorted(m + n)
                    k = tuple(x for i, x in enumerate(l) if not (i and l[i - 1] == x and self.isbool(x)))
                v = r.get(k, 0) + c * e
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def show(self, m):
        def nm(i):
            a = self.at[i]
            return "%s%d" % ({"in": "x", "H": "q", "B": "c", "E": "e", "b": "b", "W": "W"}.get(a.kind, a.kind), i)
        t = ["%s%s" % (hex(c) if isinstance(c, int) else c, "".join("*" + nm(i) for i in k)) for k, c in list(m.items())[:12]]
        return " + ".join(t) + (" …" if len(m) > 12 else "")

    def inputs(self, n, bits, lo=None, hi=None, residue=None):
        """n fresh limbs of `bits` bits whose weighted sum lies in [lo, hi]"""
        g = len(self.groups)
        ats = [self.atom("in", 0, mask(bits), group=g) for _ in range(n)]
        ws = [1 << (bits * i) for i in range(n)]
        self.groups.append((tuple(a.id for a in ats), ws, 0 if lo is None else lo,
                            (1 << (bits * n)) - 1 if hi is None else hi, residue))
        return [Z(self, {(a.id,): 1}, a.lo, a.hi) for a in ats], g

    def gpoly(self, g):
        ats, ws = self.groups[g][:2]
        return {(a,): w for a, w in zip(ats, ws)}

    # ------------------------------------------------------------ booleans
    def b2m(self, b):
        b = tob(b)
        memo = {}

        def go(x):
            if x is TRUE:
                return {(): 1}
            if x is FALSE:
                return {}
            r = memo.get(x.id)
            if r is None:
                t = tm._all[x.v]
                a = self.boolof.get(t.id)
                if a is None:
                    a = self.boolof[t.id] = self.atom("b", 0, 1, data=t).id
                h, l = go(x.hi), go(x.lo)
                r = memo[x.id] = madd(l, self.mul({(a,): 1}, madd(h, l, -1)))
            return r
        r = go(b)
        ats = {i for k in r for i in k}
        if 1 < len(ats) <= 4:
            t = self.table(r)
            if t:
                r = self.fromtable(*t)
        return r

    def bterm(self, i):
        a = self.at[i]
        t = a.data if a.kind == "b" else T("zb", i)
        self.boolof[t.id] = i
        return bvar(t)

    def table(self, m, limit=6):
        """assignments of the boolean atoms of a polynomial that has no other atoms"""
        ats = sorted({i for k in m for i in k})
        if len(ats) > limit or not all(self.isbool(i) for i in ats):
            return None
        out = []
        for x in range(1 << len(ats)):
            on = {a for j, a in enumerate(ats) if x >> j & 1}
            out.append((tuple((a, a in on) for a in ats), sum(c for k, c in m.items() if all(i in on for i in k))))
        return ats, out

    def fromtable(self, ats, vals):
        """multilinear polynomial with the given values (on the feasible assignments)"""
        m = {}
        if len(ats) > 1 and len(ats) <= 4 and all(self.at[a].kind == "B" for a in ats):
            rows = [(asg, v) for asg, v in vals if self.possible(asg)]
            for a in ats:
                d = {}
                for asg, v in rows:
                    d.setdefault(dict(asg)[a], set()).add(v)
                if all(len(x) == 1 for x in d.values()):
                    v1 = next(iter(d[True])) if True in d else 0
                    v0 = next(iter(d[False])) if False in d else v1
                    v1 = v1 if True in d else v0
                    r = {(): v0} if v0 else {}
                    return madd(r, {(a,): 1}, v1 - v0)
        for asg, v in vals:
            if v:
                t = {(): v}
                for a, on in asg:
                    t = self.mul(t, {(a,): 1} if on else {(): 1, (a,): -1})
                m = madd(m, t)
        return m

    def possible(self, asg):
        r = self.feas.get(asg)
        if r is None:
            facts = []
            r = True
            for i, v in asg:
                if not self.feasible(i, v, facts, {}, ()):
                    r = False
                    break
                facts += self.factsof(i, v)
            self.feas[asg] = r
        return r

    def tbool(self, vals):
        r = FALSE
        for asg, v in vals:
            if v:
                t = TRUE
                for a, on in asg:
                    b = self.bterm(a)
                    t = band(t, b if on else bnot(b))
                r = bor(r, t)
        return r

    # ------------------------------------------------------------ conversion
    def z(self, v):
        if isinstance(v, Z):
            return v
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return Z(self, {(): v} if v else {}, v, v)
        if isinstance(v, B):
            return Z(self, self.b2m(v), 0, 1)
        if isinstance(v, Term):
            if v.op == "b2i":
                return self.z(v.args[0])
            if v.op == "bit":
                return self.z(bvar(v))
            if v.op == "ite":
                return self.z(self.ite(v.args[0], self.z(v.args[1]), self.z(v.args[2])))
        from .interp import Imprecise
        raise Imprecise("word value %s" % (v.op if isinstance(v, Term) else type(v)))

    def out(self, m, lo, hi):
        if not m:
            return 0
        if len(m) == 1 and () in m:
            return m[()]
        t = self.table(m, 5)
        if t:
            vs = [v for _, v in t[1]]
            lo, hi = max(lo, min(vs)), min(hi, max(vs))
        elif () not in m:
            w = (1 << self.ctz(m)) - 1  # a multiple of 2^t
            lo, hi = lo + w & ~w, hi & ~w
        return Z(self, m, lo, hi)

    def ite(self, c, a, b):
        a, b = self.z(a), self.z(b)
        if a.m == b.m:
            return a
        cm = self.b2m(c)
        m = madd(b.m, self.mul(cm, madd(a.m, b.m, -1)))
        return self.out(m, min(a.lo, b.lo), max(a.hi, b.hi))

    # ------------------------------------------------------------ floor
    def floor(self, m, lo, hi, s, req=True):
        """polynomial and interval of floor(m / 2^s)"""
        if s == 0:
            return m, lo, hi
        w = 1 << s
        flo, fhi = lo >> s, hi >> s
        if flo == fhi:
            return ({(): flo} if flo else {}), flo, fhi
        if all(c % w == 0 for c in m.values()):
            return {k: c >> s for k, c in m.items()}, flo, fhi
        t = self.table(m, 5)
        if t:
            vals = [(a, v >> s) for a, v in t[1]]
            return self.fromtable(t[0], vals), flo, fhi
        while s > 0 and all(c % 2 == 0 for c in m.values()):
            m = {k: c >> 1 for k, c in m.items()}
            lo, hi, s = lo >> 1, hi >> 1, s - 1
        # floor(floor(v / 2^a) / 2^b) = floor(v / 2^(a+b))
        one = [k for k in m if k]
        if len(one) == 1 and m[one[0]] == 1 and len(one[0]) == 1:
            a = self.at[one[0][0]]
            if a.v is not None and a.kind in ("B", "H") and m.get((), 0) == a.c:
                return self.floor(a.v, lo << a.s, ((hi + 1) << a.s) - 1, s + a.s, req)
        alt = self.alt.get(frozenset(m.items()))
        if alt is not None and alt[3] == s and (alt[2] >> s) - (alt[1] >> s) <= 1:
            f, a, b = self.floor(alt[0], alt[1], alt[2], s, req)
            return madd(f, alt[4], -1), flo, fhi
        # a truncation met before: floor((m - 2^b f) / 2^s) = floor(m / 2^s) - 2^(b-s) f
        o = self.rng.get(frozenset(m.items()))
        if o is not None and s < o[3] and o[1] < 0:
            f, a, b = self.floor(o[0], o[1], o[2], s, req)
            return madd(f, mscale(o[4], 1 << (o[3] - s)), -1), flo, fhi
        # the sign of a short quantity does not depend on the width
        if lo < 0 <= hi:
            for n in (8, 16, 32, 64, 128):
                if n < s and lo >= -(1 << n) and hi < 1 << n:
                    s = n
                    break
        key = (frozenset(m.items()), s)
        i = self.fl.get(key)
        if i is None:
            # floor of a floor: m = ±H exactly
            if fhi == flo + 1:
                a = self.atom("B", 0, 1, v=m, s=s, c=flo)
            else:
                a = self.atom("H", flo, fhi, v=m, s=s)
            a.stages = self.telescope(m, s)
            i = self.fl[key] = a.id
        a = self.at[i]
        if req:
            a.req = True
        f = {(i,): 1}
        if a.kind == "B" and a.c:
            f[()] = a.c
        return f, max(flo, a.lo + a.c), min(fhi, a.hi + a.c)

    def fpoly(self, a):
        f = {(a.id,): 1}
        if a.kind == "B" and a.c:
            f[()] = a.c
        return f

    def telescope(self, m, s, limit=10):
        """floor((x + floor(V/2^t))/2^s) = floor((2^t x + V)/2^(s+t)) for integer x"""
        st = [(m, s)]
        cand = [k[0] for k, c in m.items() if len(k) == 1 and c == 1 and self.at[k[0]].kind in ("B", "H") and self.at[k[0]].v is not None]
        if cand:
            a = self.at[max(cand)]
            m0, s0 = st[0]
            x = madd(m0, self.fpoly(a), -1)
            for V, t in a.stages[: limit - 1]:
                st.append((madd(mscale(x, 1 << t), V), s0 + t))
        return tuple(st)

    # ------------------------------------------------------------ operations
    def wrap(self, m, lo, hi, bits, sg=0):
        if 0 <= lo and hi <= mask(bits):
            return self.out(m, lo, hi)
        f, flo, fhi = self.floor(m, lo, hi, bits, req=False)
        r = madd(m, mscale(f, 1 << bits), -1)
        self.rng.setdefault(frozenset(r.items()), (m, lo, hi, bits, f))
        return self.out(r, 0, mask(bits))

    def cast(self, I, v, a, b):
        z = self.z(v)
        if b[1]:
            if z.lo >= 0 and z.hi < 1 << (b[0] - 1):
                return v
            raise_imprecise("cast to signed")
        return self.wrap(z.m, z.lo, z.hi, b[0])

    castx = cast

    def unop(self, I, op, a, bits):
        z = self.z(a)
        if op == "not":
            return self.out(madd({(): mask(bits)}, z.m, -1), mask(bits) - z.hi, mask(bits) - z.lo)
        raise_imprecise("unop " + op)

    def eqconst(self, I, v, c):
        return self.eq(self.z(v), self.z(c))

    def eq(self, a, b):
        if a.hi < b.lo or b.hi < a.lo:
            return FALSE
        d = madd(a.m, b.m, -1)
        if not d:
            return TRUE
        if len(d) == 1 and () in d:
            return FALSE
        t = self.table(d)
        if t:
            return self.tbool([(x, v == 0) for x, v in t[1]])
        lo, hi = a.lo - b.hi, a.hi - b.lo
        if len(d) == 1:
            (k, c), = d.items()
            if len(k) == 1 and self.at[k[0]].kind == "or":
                x, y = self.at[k[0]].data
                zero = self.z(0)
                return band(self.eq(x, zero), self.eq(y, zero))
            if len(k) == 1 and self.at[k[0]].kind == "xor":
                x, y = self.at[k[0]].data
                return self.eq(x, y)
            if len(k) == 1 and self.at[k[0]].kind == "and":
                x, y = self.at[k[0]].data
        from math import gcd
        g = 0
        for c in d.values():
            g = gcd(g, c)
        if d[min(d)] < 0:
            g = -g
        if g != 1:
            d = {k: c // g for k, c in d.items()}
            lo, hi = (lo // g, hi // g) if g > 0 else (-(-hi // g) if False else hi // g, lo // g)
        key = frozenset(d.items())
        i = self.eqs.get(key)
        if i is None:
            i = self.eqs[key] = self.atom("E", 0, 1, v=d, data=(min(lo, hi), max(lo, hi))).id
        return self.bterm(i)

    def lt(self, a, b):
        lo, hi = a.lo - b.hi, a.hi - b.lo
        if hi < 0:
            return TRUE
        if lo >= 0:
            return FALSE
        n = max(abs(lo), abs(hi) + 1).bit_length()
        n = 64 if n <= 64 else 128 if n <= 128 else n
        f, flo, fhi = self.floor(madd(a.m, b.m, -1), lo, hi, n)
        t = self.table(f, 5)
        return self.tbool([(x, v < 0) for x, v in t[1]])

    def binop(self, I, op, a, b, bits, sg):
        from .interp import Imprecise, tup, Agg
        if sg:
            raise Imprecise("signed word operation")
        a, b = self.z(a), self.z(b)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op.endswith("WithOverflow"):
            m, lo, hi = self.arith(op[:-12], a, b)
            r = self.wrap(m, lo, hi, bits)
            if 0 <= lo and hi <= mask(bits):
                return tup(r, False)
            f, flo, fhi = self.floor(m, lo, hi, bits)
            t = self.table(f, 5)
            if t:
                return tup(r, self.tbool([(x, v != 0) for x, v in t[1]]))
            return tup(r, bnot(self.eq(self.out2(f, flo, fhi), self.z(0))))
        if op in ("Add", "Sub", "Mul"):
            return self.wrap(*self.arith(op, a, b), bits)
        if op in ("Shl", "Shr"):
            if b.lo != b.hi:
                raise Imprecise("shift by a value")
            n = b.lo & (bits - 1)
            if op == "Shl":
                return self.wrap(mscale(a.m, 1 << n), a.lo << n, a.hi << n, bits)
            return self.out(*self.floor(a.m, a.lo, a.hi, n))
        if op in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(op, a, b, bits)
        if op in ("Eq", "Ne"):
            r = self.eq(a, b)
            return r if op == "Eq" else bnot(r)
        if op in ("Lt", "Ge"):
            r = self.lt(a, b)
            return r if op == "Lt" else bnot(r)
        if op in ("Gt", "Le"):
            r = self.lt(b, a)
            return r if op == "Gt" else bnot(r)
        raise Imprecise("word operation " + op)

    def out2(self, m, lo, hi):
        return Z(self, m, lo, hi)

    def arith(self, op, a, b):
        if op in ("Add", "Sub"):
            k = 1 if op == "Add" else -1
            m = madd(a.m, b.m, k)
            for x, y, kx, ky in ((a, b, 1, k), (b, a, k, 1)):
                o = self.rng.get(frozenset(x.m.items()))
                if o is not None and kx == 1 and frozenset(m.items()) not in self.alt:
                    l, h = (y.lo, y.hi) if ky == 1 else (-y.hi, -y.lo)
                    self.alt[frozenset(m.items())] = (madd(o[0], y.m, ky), o[1] + l, o[2] + h, o[3], o[4])
            if k == 1:
                return m, a.lo + b.lo, a.hi + b.hi
            return m, a.lo - b.hi, a.hi - b.lo
        ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        return self.mul(a.m, b.m), min(ps), max(ps)

    def ctz(self, m):
        """largest t with every coefficient divisible by 2^t"""
        t = None
        for c in m.values():
            n = (c & -c).bit_length() - 1
            t = n if t is None else min(t, n)
        return t if t is not None else 4096

    def band_const(self, v, c, bits):
        r, lo, hi = {}, 0, 0
        i = 0
        while i < bits:
            if not (c >> i) & 1:
                i += 1
                continue
            j = i
            while j < bits and (c >> j) & 1:
                j += 1
            f, _, _ = self.floor(v.m, v.lo, v.hi, i, req=i > 0)
            if v.hi >> j:
                g, _, _ = self.floor(v.m, v.lo, v.hi, j, req=False)
                f = madd(f, mscale(g, 1 << (j - i)), -1)
            r = madd(r, mscale(f, 1 << i))
            i = j
        return self.out(r, 0, min(c, v.hi))

    def bitop(self, op, a, b, bits):
        ta, tb = self.table(a.m), self.table(b.m)
        if a.lo == a.hi or b.lo == b.hi:
            if a.lo == a.hi:
                a, b, ta, tb = b, a, tb, ta
            c = b.lo
            if op == "BitAnd":
                return self.band_const(a, c, bits)
            if op == "BitXor" and c == 0:
                return self.out(a.m, a.lo, a.hi)
            if op == "BitXor" and c == mask(bits):
                return self.unop(None, "not", a, bits)
            if op == "BitOr" and c == 0:
                return self.out(a.m, a.lo, a.hi)
        if ta and tb:
            ats = sorted(set(ta[0]) | set(tb[0]))
            if len(ats) <= 8:
                vals = []
                for x in range(1 << len(ats)):
                    on = {q for j, q in enumerate(ats) if x >> j & 1}
                    va = sum(c for k, c in a.m.items() if all(i in on for i in k))
                    vb = sum(c for k, c in b.m.items() if all(i in on for i in k))
                    v = va & vb if op == "BitAnd" else va | vb if op == "BitOr" else va ^ vb
                    vals.append((tuple((q, q in on) for q in ats), v))
                return self.out(self.fromtable(ats, vals), 0, mask(bits))
        if op == "BitAnd":
            for x, y, t in ((a, b, tb), (b, a, ta)):
                if t and all(v in (0, mask(bits)) for _, v in t[1]):
                    ind = self.fromtable(t[0], [(s, 1 if v else 0) for s, v in t[1]])
                    return self.out(self.mul(x.m, ind), min(0, x.lo), x.hi)
            if a.m == b.m:
                return a
        if op in ("BitOr", "BitXor"):
            for x, y in ((a, b), (b, a)):
                if y.lo >= 0 and y.hi < 1 << min(self.ctz(x.m), 4096):
                    return self.out(madd(x.m, y.m), x.lo + y.lo, x.hi + y.hi)
            if a.m == b.m:
                return a if op == "BitOr" else 0
        kind = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op]
        key = (kind, frozenset((frozenset(a.m.items()), frozenset(b.m.items()))))
        i = self.fl.get(key)
        if i is None:
            i = self.fl[key] = self.atom(kind, 0, mask(bits), data=(a, b)).id
        return Z(self, {(i,): 1}, 0, mask(bits))

    # ------------------------------------------------------------ deciding ranges
    def interval(self, m, ov):
        lo = hi = 0
        for k, c in m.items():
            a, b = c, c
            i = 0
            while i < len(k):
                x = k[i]
                e = 1
                while i + e < len(k) and k[i + e] == x:
                    e += 1
                i += e
                l, h = ov.get(x) or (self.at[x].lo, self.at[x].hi)
                ps = [l ** e, h ** e]
                if e % 2 == 0 and l < 0 < h:
                    ps.append(0)
                pl, ph = min(ps), max(ps)
                ps = [a * pl, a * ph, b * pl, b * ph]
                a, b = min(ps), max(ps)
            lo += a
            hi += b
        return lo, hi

    def substm(self, m, i, q):
        """replace atom i by the polynomial q"""
        if not any(i in k for k in m):
            return m
        r = {}
        for k, c in m.items():
            n = k.count(i)
            if not n:
                v = r.get(k, 0) + c
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
                continue
            t = {tuple(x for x in k if x != i): c}
            for _ in range(n):
                t = self.mul(t, q)
            r = madd(r, t)
        return r

    def rem(self, i):
        """remainder atom of a floor atom"""
        l = self.lof.get(i)
        if l is None:
            a = self.at[i]
            l = self.lof[i] = self.atom("L", 0, mask(a.s)).id
        return l

    def toremainders(self, m, pick):
        """replace floor quotients by (v - remainder)/2^s, newest first"""
        done = set()
        for _ in range(400):
            c = [i for k in m for i in k if self.at[i].kind in ("H", "B") and i not in done]
            if not c:
                return m
            i = max(c)
            done.add(i)
            a = self.at[i]
            if pick == "greedy" or pick(a):
                w = Fraction(1, 1 << a.s)
                q = madd(mscale(a.v, w), {(self.rem(i),): -w})
                if a.c:
                    q = madd(q, {(): -a.c})
                n = self.substm(m, i, q)
                if len(n) > 3000:
                    return m
                if pick != "greedy" or sum(1 for k in n if any(self.at[x].kind in ("H", "B") for x in k)) < \
                        sum(1 for k in m if any(self.at[x].kind in ("H", "B") for x in k)):
                    m = n
        return m

    def wide(self, m, ov):
        """replace the first limb of each input by (value - other limbs); returns polynomial, overrides"""
        ov = dict(ov)
        ats = {i for k in m for i in k}
        gs = sorted({self.at[i].group for i in ats if self.at[i].group is not None})
        for g in gs:
            at, ws, lo, hi, _ = self.groups[g]
            l = h = 0
            for x, w in zip(at, ws):
                a, b = ov.get(x) or (self.at[x].lo, self.at[x].hi)
                l += w * a
                h += w * b
            wv = self.wideatom(g)
            ov[wv] = (max(lo, l), min(hi, h))
            # solve for the lowest limb that is not fixed
            cur = [ov.get(x) or (self.at[x].lo, self.at[x].hi) for x in at]
            i = next((i for i in range(len(at)) if cur[i][0] != cur[i][1]), 0)
            k = ws[i]
            q = {(wv,): Fraction(1, k) if k > 1 else 1}
            for j, (x, w) in enumerate(zip(at, ws)):
                if j == i:
                    continue
                c = Fraction(-w, k) if w % k else -(w // k)
                if cur[j][0] == cur[j][1]:
                    q[()] = q.get((), 0) + c * cur[j][0]
                else:
                    q[(x,)] = c
            if not q.get((), 1):
                del q[()]
            m = self.substm(m, at[i], q)
        return m, ov

    def wideatom(self, g):
        a = self.lof.get(("W", g))
        if a is None:
            gr = self.groups[g]
            a = self.lof[("W", g)] = self.atom("W", gr[2], gr[3]).id
        return a

    def tighten(self, ov):
        """limb bounds implied by the bounds on their weighted sum"""
        ov = dict(ov)
        for at, ws, lo, hi, _ in self.groups:
            cur = [ov.get(x) or (self.at[x].lo, self.at[x].hi) for x in at]
            base = sum(w * l for w, (l, h) in zip(ws, cur))
            for x, w, (l, h) in zip(at, ws, cur):
                n = (hi - base + w * l) // w
                if n < h:
                    ov[x] = (l, n)
        return ov

    def bounds(self, m, facts=(), ov=None, known=None):
        """interval of m: best over the bases, with at most one fact (V in [lo,hi]) folded in"""
        ov = self.tighten(ov or {})
        best = [None, None]
        if known:
            best = list(known)

        def upd(p, addlo=0, addhi=0):
            for f in (lambda q: q, lambda q: self.toremainders(q, lambda a: not a.req),
                      lambda q: self.toremainders(q, lambda a: True), lambda q: self.toremainders(q, "greedy")):
                q = f(p)
                for r, o in ((q, ov), self.wide(q, ov)):
                    lo, hi = self.interval(r, o)
                    if addlo is not None and (best[0] is None or lo + addlo > best[0]):
                        best[0] = lo + addlo
                    if addhi is not None and (best[1] is None or hi + addhi < best[1]):
                        best[1] = hi + addhi
        upd(m)
        for V, vlo, vhi in facts:
            for t in (1, -1):
                if not any(k in m for k in V):
                    continue
                rest = madd(m, V, -t)
                if len(rest) > len(m) + 2:
                    continue
                upd(rest, vlo if t > 0 else (None if vhi is None else -vhi), vhi if t > 0 else (None if vlo is None else -vlo))
        return ceil_(best[0]), floor_(best[1])

    def window(self, m, N):
        """drop the multiples of N when both forms provably lie in one window of length N"""
        d = {k: c for k, c in m.items() if not (k and isinstance(c, int) and c % N == 0)}
        if len(d) == len(m):
            return m
        a = self.bounds(m)
        b = self.bounds(d)
        if max(a[1], b[1]) - min(a[0], b[0]) < N:
            return d
        return m

    def factsof(self, i, v):
        """facts implied by boolean atom i = v: list of (V, lo, hi)"""
        a = self.at[i]
        out = []
        if a.kind == "B":
            cache = a.data
            if cache is None:
                cache = a.data = [(self.window(V, 1 << S), S) for V, S in a.stages]
            for V, S in cache:
                th = (a.c + 1) << S
                out.append((V, th, None) if v else (V, None, th - 1))
        elif a.kind == "E":
            if v:
                out.append((a.v, 0, 0))
        return out

    def cases(self, m, drop=None, facts=(), ov=None, sub=(), done=None):
        """split on the boolean atoms that remain; yields (polynomial, facts, interval overrides, substitutions)"""
        ov = ov or {}
        if drop:
            m = {k: c for k, c in m.items() if not (k and c % drop == 0)}
        bs = {i for k in m for i in k if self.isbool(i)}
        if not bs or len(sub) > 12 or done and done(m, facts, ov):
            yield m, facts, ov, sub
            return
        i = max(bs)
        a = self.at[i]
        for v in (1, 0):
            nf = list(facts) + self.factsof(i, v)
            nov = dict(ov)
            m2 = self.substm(m, i, {(): v} if v else {})
            nsub = sub + ((i, {(): v} if v else {}),)
            if a.kind == "E":
                if v:
                    one = [(k, c) for k, c in a.v.items() if k]
                    if len(one) == 1 and len(one[0][0]) == 1 and one[0][1] in (1, -1):
                        x = one[0][0][0]
                        val = -a.v.get((), 0) * one[0][1]
                        q = {(): val} if val else {}
                        m2 = self.substm(m2, x, q)
                        nf = [(self.substm(V, x, q), l, h) for V, l, h in nf]
                        nsub += ((x, q),)
                        nov[x] = (val, val)
                else:
                    if len(a.v) == 1 and a.data[0] >= 0:
                        (k, c), = a.v.items()
                        if len(k) == 1 and c == 1:
                            l, h = nov.get(k[0]) or (self.at[k[0]].lo, self.at[k[0]].hi)
                            nov[k[0]] = (max(l, 1), h)
            if not self.feasible(i, v, list(facts), ov, sub):
                continue
            yield from self.cases(m2, drop, nf, nov, nsub, done)

    def feasible(self, i, v, facts, ov, sub):
        for V, l, h in self.factsof(i, v):
            for x, q in sub:
                V = self.substm(V, x, q)
            lo, hi = self.bounds(V, facts, ov)
            if l is not None and hi is not None and hi < l or h is not None and lo is not None and lo > h:
                return False
        return True

    # ------------------------------------------------------------ residues
    def residue(self, m, M, sub=()):
        """normal form modulo M over the values of the inputs, or None"""
        r = {k: c % M for k, c in m.items()}
        r = {k: c for k, c in r.items() if c}
        for _ in range(400):
            gs = [self.at[i].group for k in r for i in k if self.at[i].group is not None and self.groups[self.at[i].group][4] is not None]
            if not gs:
                break
            g = max(gs)
            at, ws, lo, hi, res = self.groups[g]
            q = dict(res)
            for x, w in zip(at[1:], ws[1:]):
                q[(x,)] = -w
            r = self.substm(r, at[0], q)
            r = {k: c % M for k, c in r.items() if c % M}
        for x, q in sub:
            r = self.substm(r, x, q)
            r = {k: c % M for k, c in r.items() if c % M}
        for k in r:
            for i in k:
                if self.at[i].group is None and not self.isbool(i) and self.at[i].kind != "in":
                    return None
        return r

    def canonical(self, limbs, M, bits=64):
        """(ok, residue, detail): the weighted sum of the limbs is provably in [0, M) in every case, with one residue"""
        zs = [self.z(x) for x in limbs]
        R = {}
        for i, x in enumerate(zs):
            if x.lo < 0 or x.hi > mask(bits):
                return False, None, "limb %d out of range" % i
            R = madd(R, mscale(x.m, 1 << (bits * i)))
        N = 1 << (bits * len(zs))
        leaves = []

        def norm(X, facts, ov):
            b = self.bounds(X, facts, ov)
            if b[0] is not None and not 0 <= b[0] < N:
                # the limbs determine the value modulo N only
                j = b[0] // N
                X = madd(X, {(): -j * N})
                b = (b[0] - j * N, None if b[1] is None else b[1] - j * N)
            return X, b

        def done(X, facts, ov):
            b = norm(X, facts, ov)[1]
            return None not in b and 0 <= b[0] and b[1] < M

        for X, facts, ov, sub in self.cases(R, N, done=done):
            X, b = norm(X, facts, ov)
            if b[0] is None or b[1] is None or b[0] < 0 or b[1] >= N:
                return False, None, "case %s: value in [%s, %s]" % (self.subs(sub), b[0], b[1])
            if b[1] >= M:
                return False, None, "case %s: value may reach %s - M" % (self.subs(sub), hex(b[1] - M))
            leaves.append((X, sub))
        if not leaves:
            return False, None, "no feasible case"
        ref = None
        for X, sub in leaves:
            if not any(self.at[x].kind == "in" for x, q in sub):
                ref = self.residue(X, M)
                break
        if ref is None:
            return False, None, "the residue depends on discarded carries"
        for X, sub in leaves:
            if self.residue(X, M, sub) != self.residue(ref, M, sub):
                return False, None, "cases disagree modulo M (case %s)" % self.subs(sub)
        return True, ref, "%d cases" % len(leaves)

    def subs(self, sub):
        return ",".join("%s%d=%s" % (self.at[x].kind, x, q.get((), 0)) for x, q in sub) or "-"


def ceil_(x):
    return None if x is None else -((-x) // 1) if isinstance(x, Fraction) else x


def floor_(x):
    return None if x is None else x // 1 if isinstance(x, Fraction) else x


def raise_imprecise(m):
    from .interp import Imprecise
    raise Imprecise(m)
