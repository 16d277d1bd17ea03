"""Fields: exact arithmetic on limbs (F01), encodings (F03), inversion/roots/exponentiation/constants (F02),
constant-time discipline (F04)."""
from .gad import *
from . import terms as tm
from . import lib as L
from .limb import LimbDom, Z, madd, mscale
from .p_core import tcall
from .p_curve import PF, QF, FP, FQ, MODS, is_prime

R256 = 1 << 256


class Fd:
    def __init__(self, path):
        self.path = path
        self.M = MODS[path]
        self.n = path.rsplit("::", 1)[1]
        self.Ri = pow(R256, -1, self.M)


FIELDS = (Fd(FP), Fd(FQ))


class Lm:
    """interpreter over the limb domain for one field"""

    def __init__(self, prog, F):
        reset()
        tm.MOD = None
        self.F = F
        self.I = I = Interp(prog)
        I.ring = set()
        self.D = I.dom = LimbDom()
        self.cuts = {}
        self.active = set()
        I.hooks["bytes_to_word"] = self.b2w
        I.hooks["word_to_bytes"] = self.w2b
        for key, b in prog.bodies.items():
            t = prog.types[b["locals"][0]]
            if t["k"] == "adt" and t.get("p") == F.path and b["local"]:
                I.hooks[b["path"]] = self.cut(b["path"], key)

    def cut(self, path, key):
        def h(I, c, args, fr):
            k = key
            if path in self.active:
                return NotImplemented
            self.active.add(path)
            try:
                r = I.call_key(k, args, {})
            finally:
                self.active.discard(path)
            return self.summarise(r)
        return h

    def summarise(self, r):
        """replace a provably canonical result by a fresh canonical element with the same residue"""
        I = self.I
        v = I.strip(r)
        l = self.limbs(v)
        if l is None or all(isinstance(x, int) for x in l):
            return r
        if all(isinstance(x, Z) and len(x.m) == 1 and self.D.at[next(iter(x.m))[0]].group is not None for x in l):
            return r
        key = tuple(x if isinstance(x, int) else frozenset(x.m.items()) for x in l)
        if key in self.cuts:
            return self.cuts[key] or r
        ok, res, det = self.D.canonical(l, self.F.M)
        if not ok:
            self.cuts[key] = None
            return r
        zs, g = self.D.inputs(4, 64, 0, self.F.M - 1, residue=res)
        e = Agg(self.F.path, 0, (tuple(zs),))
        self.cuts[key] = e
        return e

    def limbs(self, v):
        v = self.I.strip(v)
        if isinstance(v, Agg) and v.ty == self.F.path:
            a = self.I.strip(v.f[0])
            if isinstance(a, tuple) and len(a) == 4:
                return [self.I.resolve(x) for x in a]
        return None

    def elem(self, hi=None):
        zs, g = self.D.inputs(4, 64, 0, self.F.M - 1 if hi is None else hi)
        return Agg(self.F.path, 0, (tuple(zs),)), g

    def b2w(self, I, bs, w):
        m, lo, hi = {}, 0, 0
        for i, x in enumerate(bs):
            z = self.D.z(x)
            m = madd(m, mscale(z.m, 1 << (8 * i)))
            lo += z.lo << (8 * i)
            hi += z.hi << (8 * i)
        return self.D.out(m, lo, hi)

    def w2b(self, I, v, n):
        z = self.D.z(v)
        out = []
        for i in range(n):
            f, _, _ = self.D.floor(z.m, z.lo, z.hi, 8 * i)
            if z.hi >> (8 * (i + 1)):
                g, _, _ = self.D.floor(z.m, z.lo, z.hi, 8 * (i + 1))
                f = madd(f, mscale(g, 256), -1)
            out.append(self.D.out(f, 0, 255))
        return out

    # -------------------------------------------------------- obligations
    def value(self, g):
        return self.D.gpoly(g)

    def expect(self, R, key, r, want):
        """the result is canonical and its integer is congruent to `want` (polynomial over inputs)"""
        l = self.limbs(r)
        if l is None:
            return R.check(key, False, "the result is not a field element: %r" % (r,))
        ok, res, det = self.D.canonical(l, self.F.M)
        if not R.check(key + ":canonical", ok, "not provably in [0, modulus): " + det):
            return False
        w = self.D.residue(want, self.F.M)
        return R.check(key + ":value", self.D.residue(res, self.F.M) == w,
                       "congruent to %s instead of %s" % (self.D.show(self.D.residue(res, self.F.M)), self.D.show(w)))

    def clean(self, R, key):
        I = self.I
        bad = [p for p in I.panics if p[0] is not FALSE]
        R.check(key + ":total", not bad, "may panic: %s" % (bad[:2],))
        R.analysed |= I.analysed


OPS = {"Add": 1, "Sub": 1, "Mul": 1, "Neg": 0, "AddAssign": 2, "SubAssign": 2, "MulAssign": 2}


def argval(I, prog, body, i, e):
    """pass e in the form the i-th parameter wants (by value or by reference)"""
    t = prog.types[body["locals"][i + 1]]
    return I.ref(e) if t["k"] == "ref" else e


def opvalue(D, F, op, a, b):
    if op.startswith("Add"):
        return madd(a, b)
    if op.startswith("Sub"):
        return madd(a, b, -1)
    if op.startswith("Mul"):
        return mscale(D.mul(a, b), F.Ri)
    return mscale(a, -1)


def impl_items(prog, F):
    """(trait, method name, body key) for every impl whose self type is the field or a reference to it"""
    out = []
    for i in prog.d["impls"]:
        st = i["st"]
        while st.startswith("&"):
            st = st[1:]
            if st.startswith("'"):
                st = st.split(" ", 1)[1]
            st = st.lstrip()
        if st != F.path:
            continue
        for n, p in i["items"]:
            for k in prog.bykey.get(p, []):
                out.append((i["tr"], n, k, p))
    return out


def f01_op(R, prog, F, tr, n, key, path):
    op = tr.rsplit("::", 1)[1] if tr else n.capitalize()
    X = Lm(prog, F)
    I, D = X.I, X.D
    body = prog.bodies[key]
    a, ga = X.elem()
    args = [a]
    gb = None
    if body["argc"] == 2:
        b, gb = X.elem()
        args.append(b)
    want = opvalue(D, F, op, X.value(ga), X.value(gb) if gb is not None else None)
    cell = None
    av = []
    for i, e in enumerate(args):
        v = argval(I, prog, body, i, e)
        if op.endswith("Assign") and i == 0:
            cell = v
        av.append(v)
    X.active.add(path)
    r = I.call_key(key, av, {})
    if cell is not None:
        r = I.load(cell)
    k = "%s:%s" % (F.n, path.replace(F.path, F.n))
    X.expect(R, k, r, want)
    X.clean(R, k)
    return True


def f01_alias(R, prog, F, path, key, what):
    """operations on one operand given twice (a op a)"""
    X = Lm(prog, F)
    a, ga = X.elem()
    r = X.I.call_key(key, [X.I.ref(a), X.I.ref(a)], {})
    v = X.value(ga)
    X.expect(R, "%s:%s(x,x)" % (F.n, what), r, opvalue(X.D, F, what, v, v))
    return True


def f01_unary(R, prog, F, key, path, n):
    X = Lm(prog, F)
    a, ga = X.elem()
    v = X.value(ga)
    X.active.add(path)
    body = prog.bodies[key]
    r = X.I.call_key(key, [argval(X.I, prog, body, 0, a)], {})
    want = mscale(v, 2) if n == "double" else mscale(X.D.mul(v, v), F.Ri) if n == "square" else mscale(v, -1)
    k = "%s:%s" % (F.n, path.replace(F.path, F.n))
    X.expect(R, k, r, want)
    X.clean(R, k)
    return True


def f01_consts(R, prog, F, items):
    for n, val in (("zero", 0), ("one", R256 % F.M), ("default", 0)):
        for tr, m, key, path in items:
            if m == n and prog.bodies[key]["argc"] == 0:
                X = Lm(prog, F)
                r = X.I.call_key(key, [], {})
                X.expect(R, "%s:%s" % (F.n, path.replace(F.path, F.n)), r, {(): val} if val else {})
                X.clean(R, F.n + ":" + n)
    return True


def f01_eq(R, prog, F, tr, n, key, path):
    """equality is equality of the integers"""
    X = Lm(prog, F)
    I, D = X.I, X.D
    body = prog.bodies[key]
    a, ga = X.elem()
    k = "%s:%s" % (F.n, path.replace(F.path, F.n))
    if n == "is_zero":
        r = I.call_key(key, [argval(I, prog, body, 0, a)], {})
        want = TRUE
        for x in X.limbs(a):
            want = band(want, D.eq(x, D.z(0)))
        r = tob(I.strip(r))
        R.check(k + ":iff", r is want, "is_zero is not `every limb is zero`: %r" % (r,))
        X.clean(R, k)
        return True
    b, gb = X.elem()
    r = I.call_key(key, [argval(I, prog, body, 0, a), argval(I, prog, body, 1, b)], {})
    r = tob(I.strip(r))
    if n == "ne":
        r = bnot(r)
    want = TRUE
    for x, y in zip(X.limbs(a), X.limbs(b)):
        want = band(want, D.eq(x, y))
    R.check(k + ":iff", r is want, "equality is not `all four limbs agree`: %r" % (r,))
    r2 = tob(I.strip(I.call_key(key, [argval(I, prog, body, 0, a), argval(I, prog, body, 1, a)], {})))
    R.check(k + ":reflexive", (r2 if n != "ne" else bnot(r2)) is TRUE, "x is not equal to itself")
    X.clean(R, k)
    return True


def f01_select(R, prog, F, tr, n, key, path):
    X = Lm(prog, F)
    I, D = X.I, X.D
    body = prog.bodies[key]
    a, ga = X.elem()
    b, gb = X.elem()
    c = bvar(T("choice"))
    r = I.call_key(key, [I.ref(a), I.ref(b), c], {})
    l = X.limbs(r)
    k = "%s:%s" % (F.n, path.replace(F.path, F.n))
    ok = l is not None
    if ok:
        cm = D.b2m(c)
        ci = next(iter(cm))[0]
        for x, p, q in zip(l, X.limbs(a), X.limbs(b)):
            z = D.z(x)
            ok = ok and D.substm(z.m, ci, {}) == p.m and D.substm(z.m, ci, {(): 1}) == q.m
    R.check(k + ":select", ok, "conditional_select does not return a for 0 and b for 1: %r" % (r,))
    X.clean(R, k)
    return True


def check_f01(R, prog):
    jobs = []
    n = 0
    for F in FIELDS:
        items = impl_items(prog, F)
        for tr, m, key, path in items:
            b = prog.bodies[key]
            short = tr.rsplit("::", 1)[1] if tr else None
            if short in OPS:
                jobs.append(("%s:%s" % (F.n, path), f01_op, R, prog, F, tr, m, key, path))
                n += 1
            elif tr is None and m in ("add", "sub", "mul") and b["argc"] == 2:
                jobs.append(("%s:%s" % (F.n, path), f01_op, R, prog, F, None, m, key, path))
                jobs.append(("%s:%s:alias" % (F.n, path), f01_alias, R, prog, F, path, key, m.capitalize()))
                n += 2
            elif m in ("double", "square") or tr is None and m == "neg":
                jobs.append(("%s:%s" % (F.n, path), f01_unary, R, prog, F, key, path, m))
                n += 1
            elif m in ("ct_eq", "eq", "ne", "is_zero"):
                jobs.append(("%s:%s" % (F.n, path), f01_eq, R, prog, F, tr, m, key, path))
                n += 1
            elif m == "conditional_select":
                jobs.append(("%s:%s" % (F.n, path), f01_select, R, prog, F, tr, m, key, path))
                n += 1
        jobs.append((F.n + ":constants", f01_consts, R, prog, F, items))
    R.parallel(jobs)
    R.floor("operations", n, 56)
    R.notes["explanation"] = (
        "Every arithmetic operator impl of both fields is interpreted over an exact integer domain: four symbolic 64-bit limbs per operand "
        "(value below the modulus), truncations and shifts as floor quotients. The result's weighted sum is shown to lie in [0, p) and to be "
        "congruent to the specified value times the Montgomery factor, in every case of the remaining borrow bits.")


# ------------------------------------------------------------------ F03
def f03_to_bytes(R, prog, F, key, path, name):
    X = Lm(prog, F)
    I, D = X.I, X.D
    a, ga = X.elem()
    body = prog.bodies[key]
    r = I.strip(I.call_key(key, [argval(I, prog, body, 0, a)], {}))
    k = "%s:%s" % (F.n, name)
    R.check(k + ":length", isinstance(r, tuple) and len(r) == 32, "not 32 bytes: %r" % (r,))
    ok, res, det = D.canonical([I.resolve(x) for x in r], F.M, bits=8)
    if R.check(k + ":canonical", ok, "the encoded integer is not provably below the modulus: " + det):
        want = D.residue(mscale(X.value(ga), F.Ri), F.M)
        R.check(k + ":value", D.residue(res, F.M) == want, "the bytes encode %s instead of the element's integer %s" % (
            D.show(D.residue(res, F.M)), D.show(want)))
    X.clean(R, k)
    return True


def f03_from_bytes(R, prog, F, key, path):
    X = Lm(prog, F)
    I, D = X.I, X.D
    zs, g = D.inputs(32, 8)
    r = I.strip(I.call_key(key, [I.ref(tuple(zs))], {}))
    k = F.n + ":from_bytes"
    val, flag = L.ctopt(I, r).f
    flag = tob(flag)
    A = X.value(g)
    under = madd(A, {(): -F.M})
    n = 0
    for f, facts, ov, sub in D.cases(D.b2m(flag)):
        v = f.get((), 0)
        lo, hi = D.bounds(under, facts, ov)
        n += 1
        if v:
            R.check(k + ":accepts-only-canonical", hi is not None and hi < 0, "accepted although the integer may be >= the modulus (case %s: value - p in [%s, %s])" % (D.subs(sub), lo, hi))
        else:
            R.check(k + ":rejects-only-noncanonical", lo is not None and lo >= 0, "rejected although the integer may be below the modulus (case %s: value - p in [%s, %s])" % (D.subs(sub), lo, hi))
    R.check(k + ":decides", n >= 2, "the acceptance flag does not depend on the bytes")
    X.expect(R, k, val, mscale(A, R256 % F.M))
    X.clean(R, k)
    return True


def f03_wide(R, prog, F, key, path):
    X = Lm(prog, F)
    zs, g = X.D.inputs(64, 8)
    r = X.I.call_key(key, [X.I.ref(tuple(zs))], {})
    k = F.n + ":from_bytes_wide"
    X.expect(R, k, r, mscale(X.value(g), R256 % F.M))
    X.clean(R, k)
    return True


def f03_int(R, prog, F, key, path, bits, name):
    X = Lm(prog, F)
    zs, g = X.D.inputs(1, bits)
    r = X.I.call_key(key, [zs[0]], {})
    k = "%s:%s" % (F.n, name)
    X.expect(R, k, r, mscale(X.value(g), R256 % F.M))
    X.clean(R, k)
    return True


def f03_raw(R, prog, F, key, path):
    X = Lm(prog, F)
    zs, g = X.D.inputs(4, 64)
    r = X.I.call_key(key, [tuple(zs)], {})
    k = "%s:%s" % (F.n, "from_raw")
    X.expect(R, k, r, mscale(X.value(g), R256 % F.M))
    X.clean(R, k)
    return True


def f03_bool(R, prog, F, key, path):
    for v in (False, True):
        X = Lm(prog, F)
        r = X.I.call_key(key, [v], {})
        X.expect(R, "%s:From<bool>:%s" % (F.n, v), r, {(): R256 % F.M} if v else {})
    return True


def f03_lower(R, prog, F, key, path, tkey):
    X = Lm(prog, F)
    I, D = X.I, X.D
    a, ga = X.elem()
    r = D.z(I.strip(I.call_key(key, [I.ref(a)], {})))
    bs = I.strip(I.call_key(tkey, [I.ref(a)], {}))
    m = {}
    for i, x in enumerate(bs):
        m = madd(m, mscale(D.z(I.resolve(x)).m, 1 << (8 * i)))
    d = madd(m, r.m, -1)
    k = F.n + ":get_lower_128"
    R.check(k, 0 <= r.lo and r.hi < 1 << 128 and all(c % (1 << 128) == 0 for c in d.values()),
            "not the low 128 bits of the canonical integer: difference %s" % D.show(d))
    X.clean(R, k)
    return True


def check_f03(R, prog):
    jobs = []
    n = 0
    for F in FIELDS:
        items = impl_items(prog, F)
        by = {}
        for tr, m, key, path in items:
            by.setdefault(m, []).append((tr, key, path))

        def one(m):
            return by[m][0]
        fd = F.n
        tb = one("to_bytes")
        jobs.append((fd + ":to_bytes", f03_to_bytes, R, prog, F, tb[1], tb[2], "to_bytes"))
        jobs.append((fd + ":from_bytes", f03_from_bytes, R, prog, F, one("from_bytes")[1], one("from_bytes")[2]))
        jobs.append((fd + ":from_bytes_wide", f03_wide, R, prog, F, one("from_bytes_wide")[1], one("from_bytes_wide")[2]))
        jobs.append((fd + ":from_u64", f03_int, R, prog, F, one("from_u64")[1], one("from_u64")[2], 64, "from_u64"))
        jobs.append((fd + ":from_u128", f03_int, R, prog, F, one("from_u128")[1], one("from_u128")[2], 128, "from_u128"))
        jobs.append((fd + ":from_raw", f03_raw, R, prog, F, one("from_raw")[1], one("from_raw")[2]))
        jobs.append((fd + ":get_lower_128", f03_lower, R, prog, F, one("get_lower_128")[1], one("get_lower_128")[2], tb[1]))
        n += 7
        for tr, key, path in by.get("from", []):
            t = prog.types[prog.bodies[key]["locals"][1]]
            if t["k"] == "bool":
                jobs.append((fd + ":From<bool>", f03_bool, R, prog, F, key, path))
                n += 1
            elif t["k"] == "int":
                jobs.append((fd + ":From<int>", f03_int, R, prog, F, key, path, t["bits"], "From<u%d>" % t["bits"]))
                n += 1
        # From<&F> for [u8; 32]
        for i in prog.d["impls"]:
            if i["tr"] == "std::convert::From" and i["st"].startswith("[u8"):
                for nm, p in i["items"]:
                    for key in prog.bykey.get(p, []):
                        t = prog.types[prog.bodies[key]["locals"][1]]
                        if F.path in t["s"]:
                            jobs.append((fd + ":into bytes", f03_to_bytes, R, prog, F, key, p, "From<&%s> for [u8; 32]" % F.n))
                            n += 1
    R.parallel(jobs)
    R.floor("conversions", n, 20)
    R.notes["explanation"] = (
        "Conversions are interpreted over symbolic bytes and limbs in the exact integer domain: the encoded integer is below the modulus and "
        "congruent to the element, decoding accepts exactly when value - p is negative, and wide/raw/integer conversions are congruent to the input.")
