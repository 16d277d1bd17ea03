"""F02: exponentiation, inversion, square roots, batch inversion and published constants.

Field elements are abstracted as monomials with integer exponents over a few generators (the input, a root of unity of
order 2^S, and, inside the two-adic loop, one generator per live value whose only tracked attribute is the base-2 logarithm of its
order).  Field multiplication is exponent addition (F01 decides that multiplication is exact)."""
import itertools
from .gad import *
from . import terms as tm
from . import lib as L
from . import interp as ip
from .interp import liveness
from .intdom import bitof
from .p_curve import PF, QF, FP, FQ, MODS, is_prime, const_field

TRAIT = "fields::Field"


def v2(n):
    c = 0
    while n % 2 == 0:
        n //= 2
        c += 1
    return c


class Ctx:
    """what is known about the generators"""

    def __init__(self, M, S):
        self.M = M
        self.S = S
        self.t = (M - 1) >> S
        self.order = {}      # generator of the 2-power torsion -> log2 of its order, or a frozenset of possible values
        self.square = {}     # generator X -> exponents of X^2
        self.m = None        # log2 of the order of a^t

    def norm(self, e):
        todo = dict(e)
        out = {}
        while todo:
            g, n = todo.popitem()
            if isinstance(n, int) and g in self.square and n not in (0, 1):
                q, r = divmod(n, 2)
                if r:
                    out[g] = out.get(g, 0) + r
                for h, k in self.square[g].items():
                    if h in self.square:
                        raise Imprecise("nested square roots")
                    out[h] = out.get(h, 0) + k * q
                continue
            out[g] = out.get(g, 0) + n
        if any(g in self.square and isinstance(n, int) and n not in (0, 1) for g, n in out.items()):
            return self.norm(out)
        return {g: n for g, n in out.items() if not (isinstance(n, int) and n == 0)}

    def orders(self, e):
        """set of possible log2 orders of a monomial in the 2-power torsion"""
        mx, cnt = 0, 0
        for g, n in e.items():
            if g == "a":
                if self.m is None or n % self.t:
                    raise Imprecise("power %d of the input is not in the 2-power torsion" % n)
                n //= self.t
                o = self.m
                if isinstance(o, frozenset):
                    if len(e) == 1:
                        return {max(x - v2(n), 0) if n else 0 for x in o}
                    raise Imprecise("order of a product with an imprecise factor")
            elif g in self.order:
                o = self.order[g]
            else:
                raise Imprecise("order of %s unknown" % g)
            if isinstance(o, frozenset):
                if len(e) == 1:
                    return {max(x - v2(n), 0) if n else 0 for x in o}
                raise Imprecise("order of a product with an imprecise factor")
            if n:
                o = max(o - v2(n), 0)
                if o > mx:
                    mx, cnt = o, 1
                elif o == mx and o:
                    cnt += 1
        if mx == 0 or cnt == 1:
            return {mx}
        if mx == 1:
            return {cnt % 2}
        if cnt % 2:
            return {mx} if cnt == 1 else set(range(mx + 1))
        return set(range(mx)) if cnt == 2 else set(range(mx + 1))


class Mo:
    """zero, or a monomial over the generators of ctx"""
    __slots__ = ("c", "e", "z")

    def __init__(self, c, e, z=False):
        self.c = c
        self.e = {} if z else c.norm(e)
        self.z = z

    def key(self):
        return (self.z, frozenset(self.e.items()))

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Mo) and self.key() == o.key()

    def __repr__(self):
        return "0" if self.z else "*".join("%s^%s" % (g, n) for g, n in sorted(self.e.items())) or "1"

    def mul(self, o):
        if self.z or o.z:
            return Mo(self.c, {}, True)
        e = dict(self.e)
        for g, n in o.e.items():
            e[g] = e[g] + n if g in e else n
        return Mo(self.c, e)

    def pow(self, n):
        if self.z:
            return Mo(self.c, {}, n != 0 if isinstance(n, int) else True)
        return Mo(self.c, {g: k * n for g, k in self.e.items()})

    def same(self, o):
        if self.z or o.z:
            return TRUE if self.z and o.z else FALSE
        d = self.mul(o.pow(-1))
        if not d.e:
            return TRUE
        s = self.c.orders(d.e)
        if s == {0}:
            return TRUE
        if 0 not in s:
            return FALSE
        raise Imprecise("cannot decide %r == %r: two-adic order of the quotient may be any of %s" % (self, o, sorted(s)))

    def join(self, I, c, o):
        if not isinstance(o, Mo) or self.z != o.z:
            return None
        if self == o:
            return self
        e = {}
        for g in set(self.e) | set(o.e):
            x, y = P(self.e.get(g, 0)), P(o.e.get(g, 0))
            v = y + b2f(tob(c)) * (x - y)
            e[g] = v.const() if v.is_const() else v
        return Mo(self.c, e)

    def method(self, I, c, m, tr, args, fr):
        def other(i=1):
            y = I.strip(args[i])
            if isinstance(y, Poly) and y.is_const():
                if y.const() == 1:
                    y = Mo(self.c, {})
                elif y.const() == 0:
                    y = Mo(self.c, {}, True)
            if not isinstance(y, Mo):
                raise Imprecise("field operation on %r" % (y,))
            return y
        if m == "mul":
            return self.mul(other())
        if m == "mul_assign":
            return L.dst(I, L.innermost(I, args[0]), self.mul(other()))
        if m == "square":
            return self.mul(self)
        if m in ("ct_eq", "eq"):
            return self.same(other())
        if m == "ne":
            return bnot(self.same(other()))
        if m == "is_zero":
            return TRUE if self.z else FALSE
        if m == "invert":
            return Agg(CTO, 0, (Mo(self.c, {}, True) if self.z else self.pow(-1), FALSE if self.z else TRUE))
        if m in ("pow", "pow_vartime"):
            e = [I.resolve(v) for v in I.items(L.as_slice(I, args[1]))]
            if all(isinstance(v, int) for v in e):
                return self.pow(sum(v << (64 * i) for i, v in enumerate(e)))
            return NotImplemented
        if m == "conditional_select":
            return I.ite(tob(I.strip(args[2])), other(), self)
        if m == "conditional_assign":
            y = other()
            return L.dst(I, L.innermost(I, args[0]), I.ite(tob(I.strip(args[1 + 1])), y, self))
        if m == "conditional_swap":
            return NotImplemented
        if m == "clone":
            return self
        raise Imprecise("field operation %s is outside the monomial domain" % m)


class Fld:
    def __init__(self, path, prog):
        self.path = path
        self.M = MODS[path]
        self.n = path.rsplit("::", 1)[1]
        self.S = v2(self.M - 1)
        self.prog = prog

    def m(self, name):
        return "<%s as fields::Field>::%s" % (self.path, name)


def dlog2(x, g, S, M):
    """log of x to the base g of order 2^S, or None"""
    if pow(x, 1 << S, M) != 1:
        return None
    k = 0
    gi = pow(g, -1, M)
    for i in range(S):
        y = pow(x * pow(gi, k, M) % M, 1 << (S - 1 - i), M)
        if y != 1:
            k |= 1 << i
    return k


class BackEdge(Exception):
    pass


class LoopExit(Exception):
    def __init__(self, b):
        self.b = b


class MoInterp(Interp):
    def __init__(self, prog, F, g=None):
        super().__init__(prog)
        tm.MOD = None
        self.F = F
        self.cx = Ctx(F.M, F.S)
        self.g = g
        self.fstack = []
        self.cutting = None
        self.partition_on = False
        self.nstates = 0
        self.levels = 0
        for p in (F.path, TRAIT):
            pass
        one = lambda I, c, a, fr: Mo(self.cx, {}) if not a else NotImplemented
        zero = lambda I, c, a, fr: Mo(self.cx, {}, True) if not a else NotImplemented
        for p in (F.m("one"), TRAIT + "::one", F.path + "::one"):
            self.hooks[p] = one
        for p in (F.m("zero"), TRAIT + "::zero", F.path + "::zero", "<%s as std::default::Default>::default" % F.path):
            self.hooks[p] = zero

    def ringconst(self, path, fields):
        limbs = [int(x[1]) for x in fields[0][1]]
        v = sum(l << (64 * i) for i, l in enumerate(limbs))
        n = v * pow(1 << 256, -1, MODS[path]) % MODS[path]
        if n == 0:
            return Mo(self.cx, {}, True)
        if n == 1:
            return Mo(self.cx, {})
        if path == self.F.path and self.g is not None:
            k = dlog2(n, self.g, self.F.S, self.F.M)
            if k is not None:
                return Mo(self.cx, {"g": k})
        return Mo(self.cx, {"k%x" % n: 1})

    # ------------------------------------------------- partitioned loops
    def run(self, fr, b, stop):
        push = not self.fstack or self.fstack[-1] is not fr
        if push:
            self.fstack.append(fr)
        try:
            return super().run(fr, b, stop)
        finally:
            if push:
                self.fstack.pop()

    def block_hook(self, fr, b):
        """called before each block; returns the block to continue with"""
        if self.cutting is not None:
            f, head, body, first = self.cutting
            if fr is f:
                if b == head and not first[0]:
                    raise BackEdge()
                first[0] = False
                if b not in body:
                    raise LoopExit(b)
            return b
        if not self.partition_on or not fr.b["local"]:
            return b
        lp = loops(self.p, fr.b["key"])
        if b in lp and self.wants(fr):
            return self.partition(fr, b, lp[b])
        return b

    def wants(self, fr):
        return True

    def partition(self, fr, head, body):
        live = liveness(self.p, fr.b["key"])
        work = self.rebase(fr, live[head])
        seen = set()
        exits = []
        while work:
            nxt = []
            for snap, key in work:
                if key in seen:
                    continue
                seen.add(key)
                self.nstates += 1
                self.restore(snap)
                self.cutting = (fr, head, body, [True])
                try:
                    super().run(fr, head, -9)
                    raise Imprecise("loop left by return")
                except BackEdge:
                    self.cutting = None
                    nxt += self.rebase(fr, live[head])
                except LoopExit as x:
                    self.cutting = None
                    exits.append((x.b, self.rebase(fr, live[x.b])))
                finally:
                    self.cutting = None
            self.levels += 1
            if self.nstates > 20000 or self.levels > 2000:
                raise Imprecise("partitioned loop does not stabilise")
            work = nxt
        bs = {b for b, _ in exits}
        if len(bs) != 1:
            raise Imprecise("several loop exits")
        self.join_exits([s for _, l in exits for s in l], fr, live[next(iter(bs))])
        return next(iter(bs))

    def snapshot(self):
        st = self.st
        return ([{k: list(v) if isinstance(v, list) else v for k, v in l.items()} for l in st.layers], st.nc,
                dict(self.cx.order), {g: dict(e) for g, e in self.cx.square.items()})

    def restore(self, s):
        st = self.st
        st.layers = [{k: list(v) if isinstance(v, list) else v for k, v in l.items()} for l in s[0]]
        st.nc = s[1]
        self.cx.order = dict(s[2])
        self.cx.square = {g: dict(e) for g, e in s[3].items()}

    def reach(self, fr, live):
        """cells holding live values, in a deterministic order"""
        todo = []
        for f in self.fstack:
            n = len(f.b["locals"])
            for i in range(n):
                if f is not fr or i in live:
                    todo.append(f.loc + i)
        out = []
        done = set()
        while todo:
            c = todo.pop(0)
            if c in done:
                continue
            done.add(c)
            v = self.st.get(c)
            if v is UNINIT:
                continue
            out.append(c)
            todo += refs(v)
        return out

    def rebase(self, fr, live):
        """fresh generators for the live values; several states when an order is not determined"""
        cells = self.reach(fr, live)
        cs = set(cells)
        elems = []
        for c in cells:
            for e in mos(self.st.get(c)):
                if not e.z and set(e.e) - {"a"} and e not in elems:
                    elems.append(e)
                elif not e.z and "a" in e.e and e.e["a"] != 1 and e not in elems:
                    elems.append(e)
        cx = self.cx
        mu, roots = [], []
        for e in elems:
            x = e.mul(e).mul(Mo(cx, {"a": -1}))
            if self.torsion(e):
                mu.append(e)
            elif self.torsion(x):
                roots.append((e, x))
            # other values keep their description if it only involves the input
            elif set(e.e) - {"a"}:
                raise Imprecise("value %r has no description at the loop head" % (e,))
        choices = [sorted(cx.orders(e.e)) for e in mu]
        resid = []
        for e, x in roots:
            best = None
            for eps in itertools.product((0, 1), repeat=len(mu)):
                r = x
                for k, u in zip(eps, mu):
                    if k:
                        r = r.mul(u.pow(-1))
                try:
                    o = sorted(cx.orders(r.e))
                except Imprecise:
                    continue
                sc = (len(o), o[-1], sum(eps))
                if best is None or sc < best[0]:
                    best = (sc, eps, o)
            if best is None:
                raise Imprecise("square of %r is not described by the live values" % (e,))
            resid.append(best)
            choices.append(best[2])
        base = self.snapshot()
        out = []
        for ch in itertools.product(*choices):
            self.restore(base)
            ren = {}
            order, square = {}, {}
            for i, e in enumerate(mu):
                if ch[i] == 0:
                    ren[e] = {}
                else:
                    order["M%d" % i] = ch[i]
                    ren[e] = {"M%d" % i: 1}
            for j, (e, x) in enumerate(roots):
                sq = {"a": 1}
                for i, k in enumerate(resid[j][1]):
                    if k and ch[i]:
                        sq["M%d" % i] = 1
                if ch[len(mu) + j]:
                    order["D%d" % j] = ch[len(mu) + j]
                    sq["D%d" % j] = 1
                square["X%d" % j] = sq
                ren[e] = {"X%d" % j: 1}
            for l in self.st.layers:
                for c in list(l):
                    if c in cs:
                        l[c] = mapmo(l[c], lambda m: Mo2(cx, ren[m]) if m in ren else m)
                    elif any(not m.z and set(m.e) - {"a"} for m in mos(l[c])):
                        l[c] = UNINIT
            cx.order, cx.square = order, square
            cx.order["g"] = cx.S
            idx = {c: i for i, c in enumerate(cells)}
            key = (tuple(canon(self.st.get(c), idx) for c in cells), tuple(sorted(order.items())),
                   tuple(sorted((g, tuple(sorted(s.items()))) for g, s in square.items())))
            out.append((self.snapshot(), key))
        return out

    def join_exits(self, snaps, fr, live):
        self.restore(snaps[0][0])
        cells = self.reach(fr, live)
        cx = self.cx
        vals = {c: [] for c in cells}
        for s, _ in snaps:
            self.restore(s)
            for c in cells:
                v = self.st.get(c)
                vals[c].append((v, {g: cx.orders({h: k for h, k in e.items() if h != "a"}) for g, e in cx.square.items()}, dict(cx.order)))
        self.restore(snaps[0][0])
        n = 0
        order, square = {"g": cx.S}, {}
        for c in cells:
            l = vals[c]
            v0 = l[0][0]
            if all(v == v0 for v, _, _ in l) and not any(m.e for m in mos(v0)):
                continue
            if all(isinstance(v, Mo) for v, _, _ in l):
                if all(len(v.e) == 1 and next(iter(v.e)) in sq for v, sq, _ in l):
                    os = set()
                    for v, sq, _ in l:
                        os |= sq[next(iter(v.e))]
                    x = "X%d" % n
                    square[x] = {"a": 1}
                    if os != {0}:
                        order["D%d" % n] = frozenset(os)
                        square[x]["D%d" % n] = 1
                    self.put(c, Mo2(cx, {x: 1}))
                    n += 1
                    continue
                if all(v == v0 and set(v.e) <= {"a"} for v, _, _ in l):
                    continue
            if all(v == v0 for v, _, _ in l) and not list(mos(v0)):
                continue
            self.put(c, T("top", "loop", self.uniq()))
        cx.order, cx.square = order, square

    def put(self, c, v):
        for l in self.st.layers:
            if c in l:
                l[c] = v

    def torsion(self, e):
        try:
            self.cx.orders(e.e)
            return True
        except Imprecise:
            return False


def Mo2(cx, e):
    m = Mo.__new__(Mo)
    m.c, m.e, m.z = cx, dict(e), False
    return m


def refs(v):
    if isinstance(v, Ref):
        return [v.cid]
    if isinstance(v, (VecV, BoxV)):
        return [v.cid]
    if isinstance(v, Agg):
        return [c for x in v.f for c in refs(x)]
    if isinstance(v, (tuple, list)):
        return [c for x in v for c in refs(x)]
    if isinstance(v, Clo):
        return [c for x in v.up for c in refs(x)]
    return []


def mos(v):
    if isinstance(v, Mo):
        yield v
    elif isinstance(v, Agg):
        for x in v.f:
            yield from mos(x)
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from mos(x)
    elif isinstance(v, Clo):
        for x in v.up:
            yield from mos(x)


def mapmo(v, f):
    if isinstance(v, Mo):
        return f(v)
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, [mapmo(x, f) for x in v.f])
    if isinstance(v, tuple):
        return tuple(mapmo(x, f) for x in v)
    if isinstance(v, list):
        return [mapmo(x, f) for x in v]
    if isinstance(v, Clo):
        return Clo(v.key, tuple(mapmo(x, f) for x in v.up), v.env)
    return v


def canon(v, idx):
    if isinstance(v, Mo):
        return v.key()
    if isinstance(v, Agg):
        return (v.ty, v.var) + tuple(canon(x, idx) for x in v.f)
    if isinstance(v, (tuple, list)):
        return tuple(canon(x, idx) for x in v)
    if isinstance(v, Ref):
        return ("ref", idx.get(v.cid), v.path, v.win)
    if isinstance(v, (VecV, BoxV)):
        return ("vec", idx.get(v.cid))
    if type(v).__module__.endswith("lib") and hasattr(v, "__dict__"):
        return (type(v).__name__,) + tuple((k, canon(x, idx)) for k, x in sorted(v.__dict__.items()))
    try:
        hash(v)
        return v
    except TypeError:
        return repr(v)


# ------------------------------------------------------------------ control-flow facts
def loops(prog, key):
    """natural loops: head -> set of blocks"""
    c = prog.__dict__.setdefault("_loops", {})
    if key in c:
        return c[key]
    b = prog.bodies[key]
    n = len(b["blocks"])
    sc = [ip.succs(x[1]) for x in b["blocks"]]
    pred = [[] for _ in range(n)]
    for i, ss in enumerate(sc):
        for s in ss:
            pred[s].append(i)
    # dominators (iterative over reverse postorder)
    order, seen = [], set()

    def dfs(x):
        st = [(x, iter(sc[x]))]
        seen.add(x)
        while st:
            y, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(sc[s])))
                    break
            else:
                order.append(y)
                st.pop()
    dfs(0)
    order.reverse()
    dom = {x: None for x in order}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for x in order[1:]:
            ds = [dom[p] for p in pred[x] if p in dom and dom[p] is not None]
            new = set.intersection(*ds) | {x} if ds else {x}
            if new != dom[x]:
                dom[x] = new
                ch = True
    out = {}
    for x in order:
        for s in sc[x]:
            if s in dom[x]:
                body = {s, x}
                wl = [x]
                while wl:
                    y = wl.pop()
                    if y == s:
                        continue
                    for p in pred[y]:
                        if p not in body and p in dom:
                            body.add(p)
                            wl.append(p)
                out[s] = out.get(s, set()) | body
    c[key] = out
    return out


def method_key(prog, F, name):
    """the field's own definition of a trait method, or the trait's default"""
    return prog.roots.get(F.m(name)) or prog.fn(TRAIT + "::" + name)


def f02_pow(R, prog, F, name):
    reset()
    key = method_key(prog, F, name)
    I = MoInterp(prog, F)
    x = Mo(I.cx, {"a": 1})
    ws = tuple(T("word", "e%d" % i, 64) for i in range(4))
    r = I.strip(I.call_key(key, [I.ref(x), I.ref(ws)], {}))
    want = ZERO
    for i in range(256):
        want = want + b2f(tob(bitof(ws[i // 64], i % 64))).scale(1 << i)
    k = "%s:%s" % (F.n, name)
    R.check(k + ":exponent", isinstance(r, Mo) and not r.z and set(r.e) == {"a"} and P(r.e["a"]) == want,
            "the result is not the base to the power of the exponent: %s" % repr(r)[:300])
    bad = [p for p in I.panics if p[0] is not FALSE]
    R.check(k + ":total", not bad, str(bad[:2]))
    # zero base: 0^0 = 1, 0^n = 0 (the exponent polynomial is the same; the product of zeros is zero)
    for e, z in ((0, False), (1, True), (6, True)):
        r = I.strip(I.call_key(key, [I.ref(Mo(I.cx, {}, True)), I.ref((e, 0, 0, 0))], {}))
        R.check("%s:zero^%d" % (k, e), isinstance(r, Mo) and r.z == z and not r.e, "0^%d gives %r" % (e, r))
    R.analysed |= I.analysed
    return True


def f02_invert(R, prog, F):
    for z in (False, True):
        reset()
        I = MoInterp(prog, F)
        x = Mo(I.cx, {"a": 1}, z)
        r = I.strip(I.call_key(prog.fn(F.m("invert")), [I.ref(x)], {}))
        v, flag = L.ctopt(I, r).f
        v, flag = I.strip(v), tob(I.strip(flag))
        k = F.n + ":invert:" + ("zero" if z else "nonzero")
        if z:
            R.check(k, flag is FALSE, "inverting zero is not reported as a failure")
        else:
            R.check(k + ":flag", flag is TRUE, "inverting a nonzero element can fail")
            R.check(k + ":value", isinstance(v, Mo) and set(v.e) <= {"a"} and (v.e.get("a", 0) + 1) % (F.M - 1) == 0,
                    "the result is not the inverse for every element: %r" % (v,))
        R.check(k + ":total", not [p for p in I.panics if p[0] is not FALSE], str(I.panics[:2]))
        R.analysed |= I.analysed
    return True


def f02_sqrt(R, prog, F, part):
    """part: zero / squares (every order the odd-part power of a square can have) / non-squares"""
    k = "%s:sqrt:%s" % (F.n, part)
    reset()
    I = MoInterp(prog, F, g=const_rt(prog, F))
    I.fuel = 60_000_000
    I.partition_on = True
    cx = I.cx
    cx.m = None if part == "zero" else frozenset(range(F.S)) if part == "squares" else F.S
    cx.order["g"] = F.S
    x = Mo(cx, {"a": 1}, part == "zero")
    try:
        r = I.strip(I.call_key(prog.fn(F.m("sqrt")), [I.ref(x)], {}))
        v, flag = L.ctopt(I, r).f
        v, flag = I.strip(v), tob(I.strip(flag))
        if part == "non-squares":
            R.check(k + ":rejected", flag is FALSE, "a non-square is not rejected: %r" % (flag,))
        else:
            R.check(k + ":accepted", flag is TRUE, "the root is not reported for every element of this class")
            R.check(k + ":value", isinstance(v, Mo) and v.mul(v).same(x) is TRUE, "the value returned is not a root: %r" % (v,))
    except Imprecise as ex:
        R.check(k, False, "%s (in %s)" % (ex, (I.failstack or ["?"])[:3]))
    bad = [p for p in I.panics if p[0] is not FALSE]
    R.check(k + ":total", not bad, str(bad[:2]))
    R.analysed |= I.analysed
    return True


def const_rt(prog, F):
    """a root of unity of exact order 2^S published by the field"""
    return const_field(prog, F.m("ALPHA"), F.M)[0]


def f02_batch(R, prog, F, n):
    for pat in itertools.product((False, True), repeat=n):
        reset()
        I = MoInterp(prog, F)
        vals = [Mo(I.cx, {"v%d" % i: 1}, z) for i, z in enumerate(pat)]
        s = I.slice(vals)
        r = I.strip(I.call_key(method_key(prog, F, "batch_invert"), [s], {}))
        got = [I.strip(v) for v in I.items(s)]
        want = [v if v.z else v.pow(-1) for v in vals]
        k = F.n + ":batch_invert:" + ("".join("0" if z else "x" for z in pat) or "empty")
        R.check(k + ":entries", got == want, "entries %r instead of %r" % (got, want))
        p = Mo(I.cx, {})
        for v in want:
            if not v.z:
                p = p.mul(v)
        R.check(k + ":product", r == p, "returned %r instead of the product of the inverses" % (r,))
        bad = [q for q in I.panics if q[0] is not FALSE]
        R.check(k + ":total", not bad, str(bad[:2]))
        R.analysed |= I.analysed
    return True


def kint(prog, path):
    v = prog.consts[path][0]
    if v[0] == "arr":
        return sum(int(x[1]) << (64 * i) for i, x in enumerate(v[1]))
    return int(v[1])


def f02_consts(R, prog, F):
    M, n = F.M, F.n
    R.check(n + ":modulus-prime", is_prime(M), "")
    R.check(n + ":NUM_BITS", kint(prog, F.m("NUM_BITS")) == M.bit_length(), "NUM_BITS is not the modulus' bit length")
    R.check(n + ":CAPACITY", kint(prog, F.m("CAPACITY")) == M.bit_length() - 1, "CAPACITY is not one less than the bit length")
    R.check(n + ":S", kint(prog, F.m("S")) == F.S, "S is not the two-adicity of p - 1")
    a, raw = const_field(prog, F.m("ALPHA"), M)
    R.check(n + ":ALPHA:canonical", raw < M, "")
    R.check(n + ":ALPHA", pow(a, 1 << F.S, M) == 1 and pow(a, 1 << (F.S - 1), M) != 1, "ALPHA is not of exact order 2^S")
    ra, ri = kint(prog, F.m("RESCUE_ALPHA")), kint(prog, F.m("RESCUE_INVALPHA"))
    R.check(n + ":RESCUE_INVALPHA", ra * ri % (M - 1) == 1, "the two Rescue exponents are not inverse modulo p - 1")
    R.check(n + ":RESCUE_ALPHA", ra == 5, "the gadgets constrain the fifth power")
    b, raw = const_field(prog, F.m("BETA"), M)
    R.check(n + ":BETA", raw < M and b != 1 and pow(b, 3, M) == 1, "BETA is not a primitive cube root of unity")
    return True


def check_f02(R, prog):
    fs = [Fld(FP, prog), Fld(FQ, prog)]
    jobs = []
    for F in fs:
        jobs += [("%s:sqrt:%s" % (F.n, i), f02_sqrt, R, prog, F, i) for i in ("squares", "non-squares", "zero")]
        jobs += [("%s:%s" % (F.n, m), f02_pow, R, prog, F, m) for m in ("pow", "pow_vartime")]
        jobs += [("%s:batch_invert:%d" % (F.n, n), f02_batch, R, prog, F, n) for n in range(6)]
        jobs += [(F.n + ":invert", f02_invert, R, prog, F), (F.n + ":constants", f02_consts, R, prog, F)]
    R.parallel(jobs)
    R.floor("obligations", len(R.obl), 200)
    R.notes["explanation"] = (
        "Field elements are abstracted as monomials with integer exponents. Exponentiation is interpreted with 256 symbolic exponent bits and must give "
        "exactly the exponent; inversion must give exponent -1 modulo p-1. Square roots: the input is partitioned by the order of its odd-part power "
        "(zero, each of the S square classes, non-squares); the two-adic loop is analysed to a fixpoint over the orders of its live values, with every "
        "order a product can have; the value returned must square to the input for every square and the flag must be false for every "
        "non-square. Batch inversion for every zero pattern up to five entries.")
