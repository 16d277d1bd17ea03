"""Curves: the group operations as polynomial maps (C01), equality, encodings and constructors (C02),
constants of the cycle (C03)."""
import re
from .gad import *
from . import terms as tm
from . import lib as L
from .intdom import bitof, mkbits

PF = 0x5c5e464a35c12769bac2a757742b393081be9c1a3201248299fffe7d00000001
QF = 0x5c5e464a35c12769bac2a757742b39311b849d0f1801860419fffe7d00000001
FP, FQ = "fields::fp::Fp", "fields::fq::Fq"
MODS = {FP: PF, FQ: QF}


class Cv:
    def __init__(self, n):
        self.n = n
        self.path = "curves::ec%d::Ec%d" % (n, n)
        self.base = (FQ, FP)[n]
        self.scalar = (FP, FQ)[n]
        self.q = MODS[self.base]
        self.r = MODS[self.scalar]
        self.b = (5, 7)[n]

    def interp(self, prog):
        reset()
        tm.MOD = self.q
        I = Interp(prog)
        I.ringmod = dict(MODS)
        for f in (FP, FQ):
            I.hooks[f + "::from_raw"] = from_raw
        return I

    def curve(self, m):
        return "<%s as curves::Curve>::%s" % (self.path, m)

    def pt(self, I, x, y, z):
        return mks(I, self.path, x=x, y=y, z=z)

    def xyz(self, I, v):
        v = I.strip(v)
        return tuple(I.strip(field(I, v, k)) for k in "xyz")


def from_raw(I, c, args, fr):
    v = I.strip(args[0])
    if isinstance(v, tuple) and all(isinstance(x, int) for x in v):
        return P(sum(x << (64 * i) for i, x in enumerate(v)))
    return NotImplemented


CURVES = (Cv(0), Cv(1))


def guard(f):
    def g(*a):
        old = tm.MOD
        try:
            return f(*a)
        finally:
            tm.MOD = old
            reset()
    g.__name__ = f.__name__
    return g


# ------------------------------------------------------------------ reference formulas
def ref_add(p, q, b):
    (X1, Y1, Z1), (X2, Y2, Z2) = p, q
    b3 = P(3 * b)
    s = X1 * Y2 + X2 * Y1
    u = Y1 * Y2 - b3 * Z1 * Z2
    w = Y1 * Y2 + b3 * Z1 * Z2
    v = X1 * Z2 + X2 * Z1
    t = Y1 * Z2 + Y2 * Z1
    return (s * u - b3 * t * v, w * u + P(9 * b) * X1 * X2 * v, t * w + P(3) * X1 * X2 * s)


def ref_double(p, b):
    X, Y, Z = p
    u = Y * Y - P(9 * b) * Z * Z
    w = Y * Y + P(3 * b) * Z * Z
    return (P(2) * X * Y * u, u * w + P(24 * b) * Y * Y * Z * Z, P(8) * Y * Y * Y * Z)


def red(p, cv, eqs):
    """reduce modulo y^2 = x^3 + b for each affine pair in eqs"""
    for x, y in eqs:
        ya = next(iter(y.m))[0][0]
        rhs = x * x * x + P(cv.b)
        while True:
            hi = [k for k in p.m if dict(k).get(ya, 0) >= 2]
            if not hi:
                break
            out = ZERO
            for k, c in p.m.items():
                e = dict(k).get(ya, 0)
                if e >= 2:
                    rest = tuple((a, n - 2 if a == ya else n) for a, n in k if not (a == ya and n == 2))
                    out = out + Poly({rest: c}) * rhs
                else:
                    out = out + Poly({k: c})
            p = out
    return p


def proportional(got, want):
    """constant c with got = c * want, or None"""
    k = next(iter(want[1].m), None) if want[1].m else None
    c = None
    for g, w in zip(got, want):
        if w.is_zero():
            if not g.is_zero():
                return None
            continue
        m = next(iter(w.m))
        if m not in g.m:
            return None
        r = g.m[m] * pow(w.m[m], -1, tm.MOD) % tm.MOD
        if c is None:
            c = r
        if r != c or g != w.scale(c):
            return None
    return c


def same_point(I, got, want, eqs, cv):
    """got and want are the same projective point: equal up to a non-zero constant, or their cross
    products vanish on the curve and got is a constant multiple on every monomial"""
    if any(not isinstance(g, Poly) for g in got):
        return False
    return bool(proportional(got, want))


def cube_root_free(cv):
    """x^3 + b has no root: -b is not a cube (base field order = 1 mod 3)"""
    return cv.q % 3 == 1 and pow(-cv.b % cv.q, (cv.q - 1) // 3, cv.q) != 1


@guard
def c01_formulas(R, prog, cv):
    n = "ec%d" % cv.n
    # the reference formulas are the chord-and-tangent law on affine points
    tm.MOD = cv.q
    reset()
    x1, y1, x2, y2 = (fe(k) for k in ("x1", "y1", "x2", "y2"))
    X, Y, Z = ref_add((x1, y1, ONE), (x2, y2, ONE), cv.b)
    d = x2 - x1
    num = (y2 - y1) * (y2 - y1) - (x1 + x2) * d * d
    E = ((x1, y1), (x2, y2))
    R.check("%s:oracle:add-x" % n, red(X * d * d - Z * num, cv, E).is_zero(), "reference addition is not the chord law")
    R.check("%s:oracle:add-y" % n, red(Y * d * d * d - Z * ((y2 - y1) * (x1 * d * d - num) - y1 * d * d * d), cv, E).is_zero(), "reference addition is not the chord law")
    X, Y, Z = ref_double((x1, y1, ONE), cv.b)
    l = P(3) * x1 * x1
    e = P(2) * y1
    num = l * l - P(2) * x1 * e * e
    E = ((x1, y1),)
    R.check("%s:oracle:double-x" % n, red(X * e * e - Z * num, cv, E).is_zero(), "reference doubling is not the tangent law")
    R.check("%s:oracle:double-y" % n, red(Y * e * e * e - Z * (l * (x1 * e * e - num) - y1 * e * e * e), cv, E).is_zero(), "reference doubling is not the tangent law")
    # adding a point to itself by the addition formula is the doubling formula
    A = ref_add((x1, y1, ONE), (x1, y1, ONE), cv.b)
    D = ref_double((x1, y1, ONE), cv.b)
    for i, j in ((0, 1), (0, 2), (1, 2)):
        R.check("%s:oracle:add-self" % n, red(A[i] * D[j] - A[j] * D[i], cv, E).is_zero(), "addition of equal points is not doubling")
    A = ref_add((x1, y1, ONE), (x1, -y1, ONE), cv.b)
    R.check("%s:oracle:add-opposite" % n, red(A[0], cv, E).is_zero() and red(A[2], cv, E).is_zero(), "sum of opposite points is not the identity")
    A = ref_add((ZERO, y2, ZERO), (x1, y1, ONE), cv.b)
    R.check("%s:oracle:add-identity" % n, (A[0] - x1 * A[2]).is_zero() and (A[1] - y1 * A[2]).is_zero(), "identity plus a point is not the point")
    R.check("%s:oracle:no-2-torsion" % n, cube_root_free(cv), "x^3+b has a root: the addition formulas are not complete")
    return True


POINTS = {
    "generic": lambda s: (fe("X" + s), fe("Y" + s), fe("Z" + s)),
    "identity": lambda s: (ZERO, fe("Y" + s), ZERO),
}


def nonzero(I, *ps):
    """assume symbols non-zero"""
    for p in ps:
        I.st.pc = band(I.st.pc, bnot(iszero(p)))


@guard
def c01_ops(R, prog, cv):
    """every operator impl of the curve type, by value, by reference and assigning"""
    n = "ec%d" % cv.n
    pat = re.compile(r"^<(&'a )?%s as std::ops::(Add|Sub|Neg|AddAssign|SubAssign)(<(&'b )?%s>)?>::\w+$" % (re.escape(cv.path), re.escape(cv.path)))
    cnt = 0
    for path in sorted(prog.roots):
        m = pat.match(path)
        if not m:
            continue
        cnt += 1
        selfref, op, rhs = bool(m.group(1)), m.group(2), m.group(3)
        rref = bool(m.group(4)) or rhs is not None and "&" in rhs
        for k1 in ("generic", "identity"):
            for k2 in (("generic", "identity") if op != "Neg" else ("generic",)):
                I = cv.interp(prog)
                a, b = POINTS[k1]("1"), POINTS[k2]("2")
                for s, k, p in (("1", k1, a), ("2", k2, b)):
                    nonzero(I, p[2] if k == "generic" else p[1])
                A, Bp = cv.pt(I, *a), cv.pt(I, *b)
                ra = I.ref(A)
                key = prog.fn(path)
                if op == "Neg":
                    r = I.call_key(key, [ra if selfref else A])
                elif op in ("Add", "Sub"):
                    r = I.call_key(key, [ra if selfref else A, I.ref(Bp) if rref else Bp])
                else:
                    I.call_key(key, [ra, I.ref(Bp) if rref else Bp])
                    r = ra
                got = tuple(clean(I, g) for g in cv.xyz(I, r))
                # specification
                neg = lambda p: (p[0], -p[1], p[2])
                if op == "Neg":
                    want = neg(a)
                elif op.startswith("Sub"):
                    want = ref_add(a, neg(b), cv.b)
                else:
                    want = ref_add(a, b, cv.b)
                okk = point_equal(got, want, k1 == "identity" and op == "Neg" or k1 == k2 == "identity")
                R.check("%s:%s:%s" % (n, "&" * selfref + op + "&" * rref, k1 + "-" + k2), okk, "%s on %s and %s operands gives (%s, %s, %s)" % ((path, k1, k2) + tuple(str(g)[:120] for g in got)))
                R.check("%s:%s:total" % (n, op), not bad_panics(I), "%s may panic" % path)
                R.analysed |= I.analysed
    R.floor("%s operator impls" % n, cnt, 14)
    return True


def bad_panics(I):
    return False


def clean(I, g):
    """simplify under the path condition"""
    g = I.strip(g)
    if isinstance(g, Poly):
        return under(g, I.st.pc)
    return g


def point_equal(got, want, identity=False):
    if any(not isinstance(g, Poly) for g in got):
        return False
    if proportional(got, want):
        return True
    if identity:
        # (0 : y : 0) for any non-zero y is the identity
        return got[0].is_zero() and got[2].is_zero() and len(got[1].m) == 1 and bool(got[1].m)
    # equal up to a common non-zero monomial factor (the coordinates assumed non-zero)
    return mono_prop(got, want)


def mono_prop(got, want):
    for i, j in ((0, 1), (0, 2), (1, 2)):
        if not (got[i] * want[j] - got[j] * want[i]).is_zero():
            return False
    # some coordinate of got is want times a monomial / or conversely, so that it is not the zero vector
    for g, w in zip(got, want):
        if g.is_zero() or w.is_zero():
            continue
        if len(g.m) == len(w.m) == 1:
            return True
        kg, kw = lead(g), lead(w)
        for a, b, ka, kb in ((g, w, kg, kw), (w, g, kw, kg)):
            q = tm.mdiv(ka, kb)
            if q is not None and (a - tm.pmul(Poly({q: 1}), b).scale(a.m[ka] * pow(b.m[kb], -1, tm.MOD))).is_zero():
                return True
    return False


@guard
def c01_double(R, prog, cv):
    n = "ec%d" % cv.n
    for k in ("generic", "identity"):
        I = cv.interp(prog)
        a = POINTS[k]("1")
        nonzero(I, a[2] if k == "generic" else a[1])
        r = I.call_key(prog.fn(cv.curve("double")), [I.ref(cv.pt(I, *a))])
        got = tuple(clean(I, g) for g in cv.xyz(I, r))
        want = ref_double(a, cv.b)
        okk = point_equal(got, want, k == "identity")
        if not okk and all(isinstance(g, Poly) for g in got) and k == "generic":
            okk = bool(proportional(got, ref_add(a, a, cv.b)))
        R.check("%s:double:%s" % (n, k), okk, "doubling a %s point gives (%s, %s, %s)" % ((k,) + tuple(str(g)[:120] for g in got)))
        R.analysed |= I.analysed
    I = cv.interp(prog)
    z = cv.xyz(I, I.call_key(prog.fn(cv.curve("zero")), []))
    R.check("%s:zero" % n, z[2].is_zero() and z[0].is_zero() and z[1].is_const() and not z[1].is_zero(), "zero() is %s" % (z,))
    dflt = "<%s as std::default::Default>::default" % cv.path
    if prog.roots and any(b["path"] == dflt for b in prog.bodies.values()):
        I = cv.interp(prog)
        z = cv.xyz(I, I.call_key(prog.fn(dflt), []))
        R.check("%s:default" % n, z[2].is_zero() and z[0].is_zero() and z[1].is_const() and not z[1].is_zero(),
                "the default value %s is not a representative of a point (adding it to a point does not give that point)" % (z,))
    for sel in (False, True):
        I = cv.interp(prog)
        a, b = POINTS["generic"]("1"), POINTS["generic"]("2")
        r = I.call_key(prog.fn("<%s as subtle::ConditionallySelectable>::conditional_select" % cv.path), [I.ref(cv.pt(I, *a)), I.ref(cv.pt(I, *b)), TRUE if sel else FALSE])
        R.check("%s:conditional_select" % n, cv.xyz(I, r) == (b if sel else a), "conditional_select(%s) gives %s" % (sel, cv.xyz(I, r)))
    return True


@guard
def c01_mul(R, prog, cv):
    """scalar multiplication over an abstract group: the result must be the scalar times the point"""
    n = "ec%d" % cv.n
    pat = re.compile(r"^<(&'a )?%s as std::ops::(Mul|MulAssign)<(&'b )?%s>>::\w+$" % (re.escape(cv.path), re.escape(cv.scalar)))
    cnt = 0
    for path in sorted(prog.roots):
        m = pat.match(path)
        if not m:
            continue
        cnt += 1
        I = cv.interp(prog)
        tm.MOD = None
        reset()
        I = Interp(prog)
        I.ringmod = dict(MODS)
        I.hooks[cv.curve("zero")] = lambda I, c, a, fr: L.Pt({})
        s = fe("s")
        # canonical scalars are below 2^255
        p = L.gen("P")
        rp = I.ref(p)
        sv = I.ref(s) if "&'b" in path else s
        if m.group(2) == "Mul":
            r = I.strip(I.call_key(prog.fn(path), [rp if m.group(1) else p, sv]))
        else:
            I.call_key(prog.fn(path), [rp, sv])
            r = I.strip(rp)
        okk = False
        det = repr(r)[:200]
        if isinstance(r, L.Pt):
            if set(r.m) <= {T("gen", "P").id}:
                co = r.m.get(T("gen", "P").id, ZERO)
                okk, det = scalar_value(co, s)
        R.check("%s:mul:%s" % (n, path.split(" as ")[1][:40]), okk, "%s: %s" % (path, det))
        R.analysed |= I.analysed
    R.floor("%s scalar multiplication impls" % n, cnt, 5)
    return True


def scalar_value(co, s):
    """does the coefficient denote the canonical integer of s? (sum of its encoding's bits times powers of two; bit 255 is zero)"""
    if co == s:
        return True, ""
    want = ZERO
    top = None
    for i in range(256):
        t = T("bit", T("byte", s, i // 8), i % 8)
        bit = b2f(bvar(t))
        if i == 255:
            top = bit.scale(1 << 255)
        else:
            want = want + bit.scale(1 << i)
    if co == want or co == want + top:
        return True, ""
    d = co - want
    return False, "differs from the scalar times the point by %s" % str(d)[:200]


def check_c01(R, prog):
    R.notes["explanation"] = (
        "Addition, subtraction, negation and doubling (every operator impl) are interpreted over symbolic projective coordinates; "
        "the output coordinates are polynomials that must be the complete group-law polynomials up to a non-zero factor, for affine and identity "
        "operands. The reference polynomials are themselves checked against the chord-and-tangent law modulo the curve equation, and completeness "
        "follows from the absence of 2-torsion, which is decided from the constants. Scalar multiplication is interpreted over an abstract group: its "
        "result must be the integer value of the scalar's canonical bits times the point.")
    R.assumptions = ["completeness theorem of Renes, Costello and Batina for curves without points of order two"]
    jobs = []
    for cv in CURVES:
        jobs += [("ec%d:formulas" % cv.n, c01_formulas, R, prog, cv), ("ec%d:operators" % cv.n, c01_ops, R, prog, cv),
                 ("ec%d:double" % cv.n, c01_double, R, prog, cv), ("ec%d:mul" % cv.n, c01_mul, R, prog, cv)]
    R.parallel(jobs)
    R.floor("obligations", len(R.obl), 100)


# ------------------------------------------------------------------ C02
def ctopt_parts(I, v):
    """(value, is_some) of a CtOption value"""
    v = I.strip(v)
    if isinstance(v, Term) and v.op == "ite":
        a, ca = ctopt_parts(I, v.args[1])
        b, cb = ctopt_parts(I, v.args[2])
        return I.ite(v.args[0], a, b), bite(v.args[0], ca, cb)
    if isinstance(v, Agg) and v.ty == L.CTO:
        return I.resolve(v.f[0]), tob(I.resolve(v.f[1]))
    raise Imprecise("not an optional value: %r" % (v,))


def simp(I, b):
    """a boolean under the path condition: TRUE / FALSE when decided"""
    b = tob(I.resolve(b))
    if band(I.st.pc, bnot(b)) is FALSE:
        return TRUE
    if band(I.st.pc, b) is FALSE:
        return FALSE
    return b


def same_under(I, a, b):
    pc = I.st.pc
    return band(pc, bxor(tob(a), tob(b))) is FALSE


@guard
def c02_eq(R, prog, cv):
    n = "ec%d" % cv.n
    paths = [("ct_eq", "<%s as subtle::ConstantTimeEq>::ct_eq" % cv.path, False), ("eq", "<%s as std::cmp::PartialEq>::eq" % cv.path, False)]
    for k in ("<%s as std::cmp::PartialEq>::ne" % cv.path,):
        if k in prog.roots:
            paths.append(("ne", k, True))
    for nm, path, neg in paths:
        for k1 in POINTS:
            for k2 in POINTS:
                I = cv.interp(prog)
                a, b = POINTS[k1]("1"), POINTS[k2]("2")
                for k, p in ((k1, a), (k2, b)):
                    nonzero(I, p[2] if k == "generic" else p[1])
                pc = I.st.pc
                r = I.call_key(prog.fn(path), [I.ref(cv.pt(I, *a)), I.ref(cv.pt(I, *b))])
                r = tob(I.strip(r))
                if neg:
                    r = bnot(r)
                if k1 != k2:
                    want = FALSE
                elif k1 == "identity":
                    want = TRUE
                else:
                    want = band(iszero(a[0] * b[2] - b[0] * a[2]), iszero(a[1] * b[2] - b[1] * a[2]))
                d = band(pc, bxor(r, want))
                if d is not FALSE and k1 == k2 == "generic":
                    # affine representatives compared through inverses
                    d = FALSE if eq_affine(r, pc, a, b) else d
                R.check("%s:%s:%s-%s" % (n, nm, k1, k2), d is FALSE, "comparing a %s point with a %s point gives true when %s" % (k1, k2, r))
                R.analysed |= I.analysed
    return True


def eq_affine(r, pc, a, b):
    x = a[0] * inv0(a[2]) - b[0] * inv0(b[2])
    y = a[1] * inv0(a[2]) - b[1] * inv0(b[2])
    return band(pc, bxor(r, band(iszero(x), iszero(y)))) is FALSE


@guard
def c02_access(R, prog, cv):
    """coordinates, constructors, identity test and membership"""
    n = "ec%d" % cv.n
    for k in POINTS:
        I = cv.interp(prog)
        a = POINTS[k]("1")
        nonzero(I, a[2] if k == "generic" else a[1])
        v = I.ref(cv.pt(I, *a))
        r = simp(I, I.strip(I.call_key(prog.fn(cv.curve("is_zero")), [v])))
        R.check("%s:is_zero:%s" % (n, k), r is (TRUE if k == "identity" else FALSE), "is_zero of a %s point is %s" % (k, r))
        xyz = I.strip(I.call_key(prog.fn(cv.curve("get_xyz")), [v]))
        R.check("%s:get_xyz:%s" % (n, k), tuple(I.strip(f) for f in xyz.f) == a, "get_xyz gives %s" % (xyz,))
        val, some_ = ctopt_parts(I, I.call_key(prog.fn(cv.curve("get_xy")), [v]))
        R.check("%s:get_xy:some:%s" % (n, k), simp(I, some_) is (FALSE if k == "identity" else TRUE), "get_xy of a %s point is present when %s" % (k, some_))
        if k == "generic":
            x, y = (clean(I, f) for f in I.strip(val).f)
            R.check("%s:get_xy:value" % n, zero_under(I, x * a[2] - a[0]) and zero_under(I, y * a[2] - a[1]), "affine coordinates are (%s, %s)" % (x, y))
        r = tob(I.strip(I.call_key(prog.fn(cv.curve("is_on_curve")), [v])))
        if k == "identity":
            R.check("%s:is_on_curve:identity" % n, simp(I, r) is TRUE, "the identity is on the curve when %s" % r)
        else:
            want = [iszero(h(a, cv)) for h in (lambda p, cv: p[1] * p[1] * p[2] - p[0] ** 3 - P(cv.b) * p[2] ** 3,)]
            zi = inv0(a[2])
            x, y = a[0] * zi, a[1] * zi
            want.append(iszero(x * x * x + P(cv.b) - y * y))
            want.append(iszero(y * y - x * x * x - P(cv.b)))
            R.check("%s:is_on_curve:affine" % n, any(same_under(I, r, w) for w in want), "membership is decided by %s" % r)
        R.analysed |= I.analysed
    I = cv.interp(prog)
    x, y = fe("x"), fe("y")
    val, some_ = ctopt_parts(I, I.call_key(prog.fn(cv.curve("from_xy")), [x, y]))
    on = iszero(x * x * x + P(cv.b) - y * y)
    both = band(iszero(x), iszero(y))
    want = bor(on, both)
    R.check("%s:from_xy:accepts" % n, bxor(some_, want) is FALSE, "coordinates are accepted when %s" % some_)
    I.st.pc = band(on, bnot(both))
    got = tuple(clean(I, g) for g in cv.xyz(I, val))
    R.check("%s:from_xy:value" % n, point_equal(got, (x, y, ONE)), "the accepted point is %s" % (got,))
    I.st.pc = band(both, bnot(on))
    got = tuple(clean(I, g) for g in cv.xyz(I, val))
    got = tuple(subst(g, {next(iter(x.m))[0][0]: ZERO, next(iter(y.m))[0][0]: ZERO}) for g in got)
    R.check("%s:from_xy:identity" % n, got[0].is_zero() and got[2].is_zero() and not got[1].is_zero(), "(0,0) gives %s" % (got,))
    I = cv.interp(prog)
    got = cv.xyz(I, I.call_key(prog.fn(cv.curve("from_xy_unchecked")), [fe("x"), fe("y")]))
    R.check("%s:from_xy_unchecked" % n, point_equal(got, (fe("x"), fe("y"), ONE)), "gives %s" % (got,))
    I = cv.interp(prog)
    r = I.strip(I.call_key(prog.fn(cv.curve("b")), []))
    R.check("%s:b" % n, r == P(cv.b), "b() is %s" % r)
    return True


def zero_under(I, p):
    p = under(p, I.st.pc)
    if p.is_zero():
        return True
    return iszero(p) is TRUE or band(I.st.pc, bnot(iszero(p))) is FALSE or numer_zero(p)


def install_bytes(I, cv, pairs, accepted):
    """bytes of field elements: canonical encodings are below 2^255 and the parity of -y is the
    complement of the parity of y (y non-zero, odd modulus)"""
    base = cv.base

    def to_bytes(I, c, args, fr):
        x = clean(I, I.strip(args[0]))
        return FB(x, pairs)

    def from_bytes(I, c, args, fr):
        v = I.strip(args[0])
        if isinstance(v, L.FBytes):
            v = v.expand()
        vals = tuple(I.resolve(x) for x in v)
        x = unbytes(vals, pairs)
        if x is not None:
            return Agg(L.CTO, 0, (x, TRUE))
        return accepted(I, vals)
    for p in ("<%s as fields::Field>::to_bytes" % base, "fields::Field::to_bytes", base + "::to_bytes"):
        I.hooks[p] = to_bytes
    for p in ("<%s as fields::Field>::from_bytes" % base, "fields::Field::from_bytes", base + "::from_bytes"):
        I.hooks[p] = from_bytes


def FB(x, pairs):
    """bytes of x as bit terms"""
    out = []
    for j in range(32):
        bs = []
        for i in range(8):
            k = 8 * j + i
            if k == 255:
                bs.append(FALSE)
            elif k == 0:
                bs.append(parity(x, pairs))
            else:
                bs.append(bvar(T("bit", T("byte", x, j), i)))
        out.append(mkbits(bs))
    return tuple(out)


def parity(x, pairs):
    for y in pairs:
        if x == y:
            return bvar(T("odd", y))
        if x == -y:
            return bnot(bvar(T("odd", y)))
    if x.is_const():
        return TRUE if x.const() & 1 else FALSE
    return bvar(T("odd", x))


def unbytes(vals, pairs):
    """field element whose canonical encoding this is, if it visibly is one"""
    if all(isinstance(v, int) for v in vals):
        n = sum(v << (8 * i) for i, v in enumerate(vals))
        return P(n) if n < tm.MOD else None
    x = None
    if isinstance(vals[1], Term):
        b = bitof(vals[1], 0)
        t = tm._all[b.v] if b.v is not None else None
        if t is not None and t.op == "bit" and isinstance(t.args[0], Term) and t.args[0].op == "byte":
            x = t.args[0].args[0]
    if x is None:
        return None
    want = FB(x, pairs)
    for v, w in zip(vals, want):
        for i in range(8):
            if bitof(v, i) is not bitof(w, i):
                return None
    return x


@guard
def c02_decode(R, prog, cv):
    """what decoding accepts, and which point it returns"""
    n = "ec%d" % cv.n
    I = cv.interp(prog)
    seen = []

    def accepted(I, vals):
        seen.append(vals)
        return Agg(L.CTO, 0, (fe("x"), bvar(T("sym", "x canonical"))))
    root = fe("root")
    sq = bvar(T("sym", "x^3+b is a square"))
    args_ = []

    def sqrt(I, x):
        args_.append(x)
        return Agg(L.CTO, 0, (root, sq))
    I.hooks["ring.sqrt"] = sqrt
    install_bytes(I, cv, [root], accepted)
    W = [T("word", "b%d" % i, 8) for i in range(32)]
    val, some_ = ctopt_parts(I, I.call_key(prog.fn(cv.curve("from_bytes")), [I.ref(tuple(W))]))
    sign = bitof(W[31], 7)
    okk = len(seen) == 1 and all(bitof(seen[0][j], i) is (FALSE if 8 * j + i == 255 else bitof(W[j], i)) for j in range(32) for i in range(8))
    R.check("%s:decode:x-bytes" % n, okk, "the x coordinate is not decoded from the 255 low bits: %s" % (seen,))
    x = fe("x")
    can = bvar(T("sym", "x canonical"))
    R.check("%s:decode:curve-equation" % n, args_ and all(a == x * x * x + P(cv.b) for a in args_), "square root taken of %s" % (args_,))
    ident = band(iszero(x), bnot(sign))
    want = band(can, bor(ident, sq))
    R.check("%s:decode:accepts" % n, bxor(some_, want) is FALSE, "accepted when %s" % some_)
    # the returned point
    I.st.pc = band(can, ident)
    got = tuple(clean(I, g) for g in cv.xyz(I, val))
    xz = {next(iter(x.m))[0][0]: ZERO}
    got = tuple(subst(g, xz) for g in got)
    R.check("%s:decode:identity" % n, got[0].is_zero() and got[2].is_zero() and not got[1].is_zero(), "the all-zero encoding gives %s" % (got,))
    odd = bvar(T("odd", root))
    for s in (TRUE, FALSE):
        for o in (TRUE, FALSE):
            I.st.pc = band(band(can, bnot(ident)), band(sq, band(sign if s is TRUE else bnot(sign), odd if o is TRUE else bnot(odd))))
            got = tuple(clean(I, g) for g in cv.xyz(I, val))
            y = root if s is o else -root
            R.check("%s:decode:point" % n, point_equal(got, (x, y, ONE)), "sign bit %s and odd root %s give %s" % (s, o, got))
    R.check("%s:decode:b-nonsquare" % n, pow(cv.b, (cv.q - 1) // 2, cv.q) != 1, "a point with x = 0 exists, so the identity's encoding is ambiguous")
    R.analysed |= I.analysed
    return True


@guard
def c02_roundtrip(R, prog, cv):
    n = "ec%d" % cv.n
    # affine points, in any projective representation; the square root may be either root
    for which in (1, -1):
        I = cv.interp(prog)
        x, y, z = fe("x"), fe("y"), fe("z")
        nonzero(I, z)
        nonzero(I, y)
        install_bytes(I, cv, [y], lambda I, vals: Agg(L.CTO, 0, (P(T("garbled", tuple(vals))), bvar(T("garbledok", 0)))))
        bs = I.call_key(prog.fn(cv.curve("to_bytes")), [I.ref(cv.pt(I, x * z, y * z, z))])

        def sqrt(I, w):
            # (x, y) is on the curve
            w = under(w, I.st.pc)
            if w == x * x * x + P(cv.b):
                return Agg(L.CTO, 0, (y.scale(which), TRUE))
            return Agg(L.CTO, 0, (P(T("sqrt", w)), bvar(T("issq", w))))
        I.hooks["ring.sqrt"] = sqrt
        val, some_ = ctopt_parts(I, I.call_key(prog.fn(cv.curve("from_bytes")), [I.ref(I.strip(bs))]))
        # x = 0 does not occur on the curve (b is not a square)
        nonzero(I, x)
        R.check("%s:roundtrip:accepted" % n, simp(I, some_) is TRUE, "the encoding of an affine point is accepted only when %s" % some_)
        got = tuple(clean(I, g) for g in cv.xyz(I, val))
        R.check("%s:roundtrip:point" % n, point_equal(got, (x, y, ONE)), "decoding the encoding of (x, y) gives %s" % (got,))
        R.analysed |= I.analysed
    I = cv.interp(prog)
    yy = fe("y")
    nonzero(I, yy)
    install_bytes(I, cv, [yy], lambda I, vals: Agg(L.CTO, 0, (P(T("garbled", 1)), bvar(T("garbledok", 0)))))
    bs = I.strip(I.call_key(prog.fn(cv.curve("to_bytes")), [I.ref(cv.pt(I, ZERO, yy, ZERO))]))
    val, some_ = ctopt_parts(I, I.call_key(prog.fn(cv.curve("from_bytes")), [I.ref(bs)]))
    got = tuple(clean(I, g) for g in cv.xyz(I, val))
    R.check("%s:roundtrip:identity" % n, simp(I, some_) is TRUE and got[0].is_zero() and got[2].is_zero() and not got[1].is_zero(), "decoding the identity's encoding %s gives %s when %s" % (bs, got, some_))
    return True


def check_c02(R, prog):
    R.notes["explanation"] = (
        "Equality is interpreted on symbolic projective representatives, partitioned by whether each operand is the identity, and must be the "
        "cross-multiplied comparison. Decoding is interpreted on symbolic bytes with the field decoder and square root abstract; acceptance "
        "and the returned coordinates are compared as decision diagrams and polynomials. The round trip is interpreted "
        "with either root returned by the square root.")
    R.assumptions = ["field encodings and square roots behave as claimed in F02 and F03"]
    jobs = []
    for cv in CURVES:
        jobs += [("ec%d:%s" % (cv.n, f.__name__), f, R, prog, cv) for f in (c02_eq, c02_access, c02_decode, c02_roundtrip)]
    R.parallel(jobs)
    R.floor("obligations", len(R.obl), 70)


# ------------------------------------------------------------------ C03
def const_field(prog, path, mod):
    """field element of a constant stored in Montgomery form"""
    v = prog.consts[path][0]
    limbs = [int(x[1]) for x in v[3][0][1]]
    n = sum(l << (64 * i) for i, l in enumerate(limbs))
    return n * pow(1 << 256, -1, mod) % mod, n


def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for i in range(2, 66):
        x = pow(i, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def aff_add(a, b, q):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % q == 0:
            return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, q) % q
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, q) % q
    x = (l * l - a[0] - b[0]) % q
    return (x, (l * (a[0] - x) - a[1]) % q)


def aff_mul(k, p, q):
    r = None
    while k:
        if k & 1:
            r = aff_add(r, p, q)
        p = aff_add(p, p, q)
        k >>= 1
    return r


@guard
def c03_curve(R, prog, cv):
    n = "ec%d" % cv.n
    tys = {}
    for i in prog.d["impls"]:
        if i["tr"] == "curves::Curve" and i["st"] == cv.path:
            tys = dict(i.get("tys", []))
    R.check("%s:scalar-field" % n, tys.get("Scalar") == cv.scalar, "scalar field is %s" % tys.get("Scalar"))
    R.check("%s:base-field" % n, tys.get("Base") == cv.base, "base field is %s" % tys.get("Base"))
    t = typeinfo(prog, cv.path)
    R.check("%s:coordinates" % n, all(prog.types[f[1]].get("p") == cv.base for f in t["v"][0]["f"]), "coordinates are not base-field elements")
    I = cv.interp(prog)
    b = I.strip(I.call_key(prog.fn(cv.curve("b")), []))
    R.check("%s:b" % n, b == P(cv.b), "b is %s" % b)
    g = cv.xyz(I, I.call_key(prog.fn(cv.curve("one")), []))
    okk = all(x.is_const() for x in g) and not g[2].is_zero()
    R.check("%s:generator:affine" % n, okk, "generator %s" % (g,))
    R.analysed |= I.analysed
    if not okk:
        return True
    zi = pow(g[2].const(), -1, cv.q)
    G = (g[0].const() * zi % cv.q, g[1].const() * zi % cv.q)
    R.check("%s:generator:on-curve" % n, (G[1] ** 2 - G[0] ** 3 - cv.b) % cv.q == 0, "the generator is not on the curve")
    R.check("%s:base-prime" % n, is_prime(cv.q), "")
    R.check("%s:scalar-prime" % n, is_prime(cv.r), "")
    # [r]G = O with r prime, and r is the only multiple of r in the Hasse interval
    R.check("%s:order:generator" % n, aff_mul(cv.r, G, cv.q) is None, "the scalar field's modulus times the generator is not the identity")
    lo, hi = cv.q + 1 - 2 * isqrt(cv.q) - 2, cv.q + 1 + 2 * isqrt(cv.q) + 2
    R.check("%s:order:group" % n, lo <= cv.r <= hi and 2 * cv.r > hi, "the group order is not the scalar modulus")
    for kind, f, m in (("BETA_SCALAR", cv.scalar, cv.r), ("BETA_BASE", cv.base, cv.q)):
        v, raw = const_field(prog, cv.curve(kind), m)
        R.check("%s:%s:canonical" % (n, kind), raw < m, "stored representation is not reduced")
        R.check("%s:%s:cube-root" % (n, kind), v != 1 and pow(v, 3, m) == 1, "%s is not a primitive cube root of unity" % kind)
        w, _ = const_field(prog, "<%s as fields::Field>::BETA" % f, m)
        R.check("%s:%s:field" % (n, kind), v == w, "%s differs from the field's cube root" % kind)
    ls, lb = const_field(prog, cv.curve("BETA_SCALAR"), cv.r)[0], const_field(prog, cv.curve("BETA_BASE"), cv.q)[0]
    R.check("%s:endomorphism" % n, aff_mul(ls, G, cv.q) == (lb * G[0] % cv.q, G[1]), "scaling by BETA_SCALAR is not scaling x by BETA_BASE")
    return True


def isqrt(n):
    import math
    return math.isqrt(n)


@guard
def c03_cycle(R, prog):
    for f, m in ((FP, PF), (FQ, QF)):
        mod = f.rsplit("::", 1)[0] + "::MODULUS"
        if mod in prog.consts:
            v = prog.consts[mod][0]
            n = sum(int(x[1]) << (64 * i) for i, x in enumerate(v[3][0][1]))
            R.check("modulus:%s" % f, n == m, "modulus constant is %x" % n)
    a, b = CURVES
    R.check("cycle", a.q == b.r and a.r == b.q, "")
    return True


def check_c03(R, prog):
    R.notes["explanation"] = (
        "The evaluated constants and associated types of both curves are read from the compiler and checked by exact arithmetic: field moduli "
        "prime, generator on the curve and of order the other modulus, which by the Hasse bound is the group order; "
        "the cube roots of unity, and the endomorphism relation on the generator, which extends to every point of the cyclic group.")
    for cv in CURVES:
        R.run("ec%d" % cv.n, c03_curve, R, prog, cv)
    R.run("cycle", c03_cycle, R, prog)
    R.floor("obligations", len(R.obl), 30)
