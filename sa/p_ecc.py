"""Curve gadgets: complete and incomplete addition, doubling, conditional operations and scalar
multiplications against the chord-and-tangent group law.

The operands are partitioned by what they are (the identity, or an affine point) and by how they
relate (equal, opposite, distinct abscissae); in each part everything else is symbolic."""
from .p_gadgets import *
from .p_gadgets import gadget as _gadget
from . import terms as tm

CP = POINT + "::<C>::"
BCURVE = lambda: P(T("sym", "curve_b"))


class AP:
    """affine-or-identity point with symbolic coordinates"""
    adt = "<affine>"

    def __init__(self, x=None, y=None):
        self.x, self.y = x, y

    @property
    def id(self):
        return self.x is None

    def __hash__(self):
        return hash((self.x, self.y))

    def __eq__(self, o):
        return isinstance(o, AP) and self.x == o.x and self.y == o.y

    def __repr__(self):
        return "id" if self.id else "(%s, %s)" % (self.x, self.y)

    def __neg__(self):
        return self if self.id else AP(self.x, -self.y)

    def plus(self, o):
        if self.id:
            return o
        if o.id:
            return self
        d = o.x - self.x
        if d.is_zero():
            if (o.y + self.y).is_zero():
                return AP()
            if not (o.y - self.y).is_zero():
                raise Imprecise("points with the same abscissa and unrelated ordinates")
            l = (self.x * self.x).scale(3) * inv0(self.y.scale(2))
        else:
            if iszero(d) is TRUE:
                raise Imprecise("abscissae")
            l = (o.y - self.y) * inv0(d)
        x = l * l - self.x - o.x
        return AP(x, l * (self.x - x) - self.y)

    def method(self, I, c, m, tr, args, fr):
        if m == "clone" and tr == "std::clone::Clone":
            return self
        if tr in ("std::ops::Add", "std::ops::Sub"):
            o = I.strip(args[1])
            return self.plus(o if m == "add" else -o)
        if m == "neg":
            return -self
        if m == "double":
            return self.plus(self)
        if m == "is_zero":
            return TRUE if self.id else FALSE
        if m == "get_xy":
            return Agg(L.CTO, 0, (tup(ZERO, ZERO) if self.id else tup(self.x, self.y), FALSE if self.id else TRUE))
        return NotImplemented


def curve_hooks(known):
    """Curve's static functions; known: the points of the analysed case"""
    def from_xy(I, c, a, fr):
        x, y = I.strip(a[0]), I.strip(a[1])
        if isinstance(x, AP) or not isinstance(x, Poly):
            return NotImplemented
        if x.is_zero() and y.is_zero():
            return Agg(L.CTO, 0, (AP(), TRUE))
        for k in known:
            if not k.id and (k.x - x).is_zero() and (k.y - y).is_zero():
                return Agg(L.CTO, 0, (AP(x, y), TRUE))
        raise Imprecise("from_xy of coordinates that are no known point: %s, %s" % (x, y))

    def get_xy(I, c, a, fr):
        x = I.strip(a[0])
        return x.method(I, c, "get_xy", None, a, fr) if isinstance(x, AP) else NotImplemented
    return {"curves::Curve::from_xy": from_xy, "curves::Curve::zero": lambda I, c, a, fr: AP(), "curves::Curve::get_xy": get_xy}


def nz(name):
    t = T("sym", name)
    tm.NONZERO.add(t.id)
    return P(t)


def aux(name):
    return C.xv(T("var", "aux", name))


CASES = ("distinct", "equal", "opposite", "id-left", "id-right", "id-both")


class Case:
    """one part of the operand space: honest points, and what the circuit variables satisfy"""

    def __init__(self, name, forms=("Is", "Is")):
        self.name = name
        self.forms = forms

    def points(self):
        n = self.name
        x1, y1 = nz("x1"), nz("y1")
        if n in ("distinct", "id-left"):
            x2, y2 = (x1 + nz("d"), nz("y2")) if n == "distinct" else (nz("x2"), nz("y2"))
        if n == "I":
            return [AP()]
        if n == "A":
            return [AP(x1, y1)]
        return {"distinct": lambda: [AP(x1, y1), AP(x2, y2)], "equal": lambda: [AP(x1, y1), AP(x1, y1)],
                "opposite": lambda: [AP(x1, y1), AP(x1, -y1)], "id-left": lambda: [AP(), AP(x2, y2)],
                "id-right": lambda: [AP(x1, y1), AP()], "id-both": lambda: [AP(), AP()]}[n]()

    def curve(self):
        return [p.y * p.y - p.x * p.x * p.x - BCURVE() for p in self.points() if not p.id]

    def operand(self, g, n, p, form):
        """gadget point for AP p; form: how the flag (and for C the coordinates) are represented"""
        flag = p.id
        xv_, yv = (ZERO, ZERO) if flag else (p.x, p.y)
        g.case = getattr(g, "case", {})
        if form == "C":
            for k, v in (("x", xv_), ("y", yv), ("id", P(int(flag)))):
                g.spec_x[n + k] = g.spec_v[n + k] = v
            num = lambda v: mke(g.I, NUME, "Constant", mke(g.I, COEFF, "Full", v))
            return mks(g.I, POINT, x=num(xv_), y=num(yv), is_identity=mke(g.I, BOOL, "Constant", flag))
        x, y = g.num(n + "x", xv_), g.num(n + "y", -yv if form == "Not" else yv)
        var = T("var", "pre", n + "id")
        hv = flag if form == "Is" else not flag
        g.inputs[var] = P(int(hv))
        X = C.xv(var)
        tm.IDEM.add(T("X", var).id)
        g.spec_x[n + "id"] = X if form == "Is" else ONE - X
        g.spec_v[n + "id"] = P(int(flag))
        b = mks(g.I, BIT, value=g.opt(hv, n + "id"), var=var)
        one = lambda v: mke(g.I, NUME, "Allocated", mke(g.I, COEFF, "One"), v)
        yn = one(y)
        if form == "Not":
            g.spec_x[n + "y"] = -g.spec_x[n + "y"]
            g.spec_v[n + "y"] = yv
            yn = mke(g.I, NUME, "Allocated", mke(g.I, COEFF, "NegativeOne"), y)
        return mks(g.I, POINT, x=one(x), y=yn, is_identity=mke(g.I, BOOL, form, b))

    def split(self, g, names):
        """what a satisfying assignment of the operand variables looks like in this part"""
        ps = self.points()
        asg, extra = {}, []

        def at(k):
            """(atom, sign) of the variable behind spec_x[k], or None for a constant"""
            p = g.spec_x[k]
            if p.is_const() or not any(isX(a) for a in p.atoms()):
                return None
            (a,) = [a for a in p.atoms() if isX(a)]
            return a

        def put(k, v):
            """require spec_x[k] = v"""
            a = at(k)
            if a is None:
                if not (g.spec_x[k] - v).is_zero():
                    extra.append(g.spec_x[k] - v)
                return
            p = g.spec_x[k]
            c = p.m[((a, 1),)]
            asg[a] = (v - P(p.m.get((), 0))).scale(cinv(c))
        for n, p in zip(names, ps):
            put(n + "id", P(int(p.id)))
            if p.id:
                put(n + "x", ZERO)
                put(n + "y", ZERO)
        base = [n for n, p in zip(names, ps) if not p.id]
        if not base:
            return [(asg, [], extra)]
        n0 = base[0]
        X1, Y1 = g.spec_x[n0 + "x"], g.spec_x[n0 + "y"]
        extra += [X1 * aux("jx") - 1, Y1 * aux("jy") - 1]
        if len(base) == 2:
            n1 = base[1]
            if self.name == "distinct":
                if at(n1 + "x") is not None:
                    put(n1 + "x", X1 + aux("D"))
                else:
                    put(n0 + "x", g.spec_x[n1 + "x"] - aux("D"))
                extra += [aux("D") * aux("J") - 1]
            else:
                if at(n1 + "x") is not None:
                    put(n1 + "x", X1)
                    put(n1 + "y", Y1 if self.name == "equal" else -Y1)
                else:
                    put(n0 + "x", g.spec_x[n1 + "x"])
                    put(n0 + "y", g.spec_x[n1 + "y"] if self.name == "equal" else -g.spec_x[n1 + "y"])
        return [(asg, [], extra)]


def sum_rel(case, o, s, a, b):
    """o = a + b in the group, cross-multiplied; a, b name the operands in s"""
    x1, y1, x2, y2 = s[a + "x"], s[a + "y"], s[b + "x"], s[b + "y"]
    if case == "id-left":
        return [o[0] - x2, o[1] - y2, o[2]]
    if case == "id-right":
        return [o[0] - x1, o[1] - y1, o[2]]
    if case in ("id-both", "opposite"):
        return [o[0], o[1], o[2] - 1]
    if case == "distinct":
        d, n = x2 - x1, y2 - y1
    else:
        d, n = y1.scale(2), (x1 * x1).scale(3)
    return [d * d * (o[0] + x1 + x2) - n * n, d * (o[1] + y1) - n * (x1 - o[0]), o[2]]


def ops2(case):
    def mk(g):
        p, q = case.points()
        return [case.operand(g, "p", p, case.forms[0]), case.operand(g, "q", q, case.forms[1])]
    return mk


def run2(R, prog, key, method, case, rel, extra=None, **kw):
    def mk(g):
        a, b = ops2(case)(g)
        return [g.ref(a), g.ref(b)] + (extra(g) if extra else [])
    hooks = {}
    lazy = Hooks(case, hooks)
    return _gadget(R, prog, key, CP + method, mk, rel, hooks=lazy, nout=3,
                   split=lambda g: case.split(g, ["p", "q"]), vsub=lambda g: case.curve(), **kw)


class Hooks(dict):
    """points are created after the term tables were reset"""

    def __init__(self, case, more):
        dict.__init__(self, {"curves::Curve::from_xy": lambda I, c, a, fr: curve_hooks(case.points())["curves::Curve::from_xy"](I, c, a, fr)})
        for k, v in curve_hooks([]).items():
            self.setdefault(k, v)
        self.update(more)


def check_ecc(R, prog):
    jobs = []
    J = lambda key, f, *a: jobs.append((key, lambda: (f(R, prog, key, *a), True)[1]))
    forms = [("Is", "Is"), ("Not", "Is"), ("Is", "Not")]
    for cn in CASES:
        for fm in forms + [("C", "Is"), ("Is", "C")] if cn != "id-both" else forms + [("C", "C"), ("C", "Is")]:
            J("point.add/%s/%s%s" % (cn, fm[0], fm[1]), add_case, cn, fm)
    for k in ("Is", "Not", "T", "F"):
        for cn in CASES:
            J("point.add_conditionally/%s/%s" % (cn, k), addc_case, cn, k)
        J("point.add_conditionally_incomplete/%s" % k, addci_case, k)
        for pk in ("I", "A"):
            for fm in ("Is", "Not", "C"):
                J("point.conditional_neg/%s/%s/%s" % (pk, fm, k), cneg_case, pk, fm, k)
                J("point.conditional_endo/%s/%s/%s" % (pk, fm, k), cendo_case, pk, fm, k)
    for fm in forms:
        J("point.add_incomplete/distinct/%s%s" % fm, addi_case, "distinct", fm)
        J("point.double_and_add_incomplete/distinct/%s%s" % fm, daa_case, "distinct", fm)
    for cn in ("id-both",):
        J("point.add_incomplete/" + cn, addi_case, cn, ("Is", "Is"))
        J("point.double_and_add_incomplete/" + cn, daa_case, cn, ("Is", "Is"))
    for pk in ("I", "A"):
        for fm in ("Is", "Not", "C"):
            J("point.double/%s/%s" % (pk, fm), double_case, pk, fm)
            J("point.get_xy/%s/%s" % (pk, fm), getxy_case, pk, fm)
    for n in (0, 1, 2, 3, 5):
        J("point.multiply/%d" % n, mul_case, "multiply", n)
    for n in (1, 2, 3, 4, 6):
        J("point.multiply_fast/%d" % n, mul_case, "multiply_fast", n, True)
    J("point.multiply_endo", mul_case, "multiply_endo", 128)
    for pk in ("A", "I"):
        J("point.multiply_inv/" + pk, inv_case, "multiply_inv", "multiply", 5, pk)
        J("point.multiply_inv_fast/" + pk, inv_case, "multiply_inv_fast", "multiply_fast", 5, pk, True)
        J("point.multiply_inv_endo/" + pk, inv_case, "multiply_inv_endo", "multiply_endo", 128, pk)
    J("point.witness/I", witness_case, "I")
    J("point.witness/A", witness_case, "A")
    J("point.constants", const_case)
    J("point.axes", axis_facts)
    rs = R.parallel(jobs)
    R.floor("curve gadget analyses", sum(rs), len(jobs))


def axis_facts(R, prog, key):
    """no curve point lies on a coordinate axis, so (0, 0) is free for the identity and the gadgets' divisions
    by 2 y and x are defined for every affine point"""
    from .p_curve import CURVES, guard

    def one(cv):
        I = cv.interp(prog)
        b = I.strip(I.call_key(prog.fn(cv.curve("b")), [], {}))
        b = int(b.m.get((), 0)) % cv.q if b.is_const() else None
        n = "ec%d" % cv.n
        R.check("point.axes/%s:x" % n, b and pow(b, (cv.q - 1) // 2, cv.q) == cv.q - 1, "x = 0 has points: %s is a square" % b,
                "b is not a square")
        R.check("point.axes/%s:y" % n, b and cv.q % 3 == 1 and pow(-b, (cv.q - 1) // 3, cv.q) != 1, "y = 0 has points: -%s is a cube" % b,
                "-b is not a cube")
    for cv in CURVES:
        guard(one)(cv)


def add_case(R, prog, key, cn, fm):
    case = Case(cn, fm)
    run2(R, prog, key, "add", case, lambda g, o, s: sum_rel(cn, o, s, "p", "q"))


def addi_case(R, prog, key, cn, fm):
    case = Case(cn, fm)
    if cn == "distinct":
        run2(R, prog, key, "add_incomplete", case, lambda g, o, s: sum_rel(cn, o, s, "p", "q"))
    else:
        run2(R, prog, key, "add_incomplete", case, lambda g, o, s: sum_rel(cn, o, s, "p", "q"), sound=False)


def daa_case(R, prog, key, cn, fm):
    case = Case(cn, fm)
    if cn != "distinct":
        run2(R, prog, key, "double_and_add_incomplete", case, lambda g, o, s: [o[0], o[1], o[2] - 1], sound=False)
        return

    def rel(g, o, s):
        x1, y1, x2, y2 = (s[k] for k in ("px", "py", "qx", "qy"))
        d, n = x2 - x1, y2 - y1
        # R = P + Q = (xr/d^2, ...), S = R + P; lambda2 = 2 y1/(x1 - xr) - n/d
        e = d * d * (x1.scale(2) + x2) - n * n  # d^2 (x1 - xr)
        l2n = y1.scale(2) * d * d * d - n * e  # lambda2 * d * e
        de = d * e
        xr_d2 = n * n - d * d * (x1 + x2)
        return [de * de * (o[0] + x1) + xr_d2 * e * e - l2n * l2n, de * (o[1] + y1) - l2n * (x1 - o[0]), o[2]]

    def fails(g):
        p, q = case.points()
        l = (q.y - p.y) * inv0(q.x - p.x)
        return iszero(p.x.scale(2) + q.x - l * l)

    def split(g):
        (asg, nzs, extra), = case.split(g, ["p", "q"])
        return [(asg, nzs, extra)]
    run2(R, prog, key, "double_and_add_incomplete", case, rel, fails=fails)


def addc_case(R, prog, key, cn, k):
    case = Case(cn)

    def rel(g, o, s):
        # selected coordinate by coordinate from the sum and the first operand
        c = s["c"]
        x1, y1, f1 = s["px"], s["py"], s["pid"]
        out = []
        for cv in (0, 1):
            w = c if cv else ONE - c
            rs = sum_rel(cn, o, s, "p", "q") if cv else [o[0] - x1, o[1] - y1, o[2] - f1]
            out += [w * r for r in rs]
        return out
    run2(R, prog, key, "add_conditionally", case, rel, extra=lambda g: [g.ref(g.boolean("c", k))])


def addci_case(R, prog, key, k):
    case = Case("distinct")

    def rel(g, o, s):
        c = s["c"]
        rs = sum_rel("distinct", o, s, "p", "q")
        return [c * r for r in rs] + [(ONE - c) * r for r in (o[0] - s["px"], o[1] - s["py"], o[2] - s["pid"])]
    run2(R, prog, key, "add_conditionally_incomplete", case, rel, extra=lambda g: [g.ref(g.boolean("c", k))])


def run1(R, prog, key, method, pk, fm, rel, extra=None, **kw):
    case = Case(pk, (fm,))

    def mk(g):
        (p,) = case.points()
        return [g.ref(case.operand(g, "p", p, fm))] + (extra(g) if extra else [])
    kw.setdefault("nout", 3)
    return _gadget(R, prog, key, CP + method, mk, rel, hooks=Hooks(case, kw.pop("more", {})),
                   split=lambda g: case.split(g, ["p"]), vsub=lambda g: case.curve(), **kw)


def double_case(R, prog, key, pk, fm):
    def rel(g, o, s):
        if pk == "I":
            return [o[0], o[1], o[2] - 1]
        return sum_rel("equal", o, {**s, "qx": s["px"], "qy": s["py"]}, "p", "q")
    run1(R, prog, key, "double", pk, fm, rel)


def cneg_case(R, prog, key, pk, fm, k):
    run1(R, prog, key, "conditional_neg", pk, fm,
         lambda g, o, s: [o[0] - s["px"], o[1] - (ONE - s["c"].scale(2)) * s["py"], o[2] - s["pid"]],
         extra=lambda g: [g.ref(g.boolean("c", k))])


def cendo_case(R, prog, key, pk, fm, k):
    beta = lambda: P(T("sym", "beta"))
    run1(R, prog, key, "conditional_endo", pk, fm,
         lambda g, o, s: [o[0] - (ONE + s["c"] * (beta() - 1)) * s["px"], o[1] - s["py"], o[2] - s["pid"]],
         extra=lambda g: [g.ref(g.boolean("c", k))], more={("assoc", "BETA"): lambda I, c, fr, st: beta()})


def getxy_case(R, prog, key, pk, fm):
    run1(R, prog, key, "get_xy", pk, fm, lambda g, o, s: [o[0] - s["px"], o[1] - s["py"]], nout=2)


def witness_case(R, prog, key, pk):
    case = Case(pk)
    def mk(g):
        (p,) = case.points()
        return [g.given(p, "p")]

    def vrel(g, o, s):
        (p,) = case.points()
        return [o[0], o[1], o[2] - 1] if p.id else [o[0] - p.x, o[1] - p.y, o[2]]

    def rel(g, o, s):
        x, y, i = o
        return [i * (ONE - i), (ONE - i) * (y * y - x * x * x - BCURVE()), i * x, i * y * y]
    _gadget(R, prog, key, CP + "witness", mk, rel, vrel=vrel, hooks=Hooks(case, {}), nout=3, vsub=lambda g: case.curve())


# ------------------------------------------------------------------ scalar multiplication
class Chain:
    """summaries of the single-step operations (decided above): results are fresh points whose
    multiple of the base is recorded"""
    STEPS = ("double", "add", "add_incomplete", "double_and_add_incomplete", "conditional_neg", "conditional_endo")

    def __init__(self):
        self.of = {}
        self.log = {}

    def start(self, g):
        self.of[id(g.I)] = g
        self.log[id(g.I)] = []

    def hooks(self):
        return {CP + m: (lambda I, c, a, fr, m=m: self.step(I, m, a)) for m in self.STEPS}

    def step(self, I, m, a):
        g = self.of[id(I)]
        log = self.log[id(I)]
        pts, cond = [], None
        for x in a:
            x = I.strip(x)
            if isinstance(x, Agg) and x.ty == POINT:
                pts.append(x)
            elif isinstance(x, Agg) and x.ty == BOOL:
                cond = x
            elif isinstance(x, Agg) and x.ty.endswith("::Namespace"):
                I.st.emit(("pop",))  # the namespace handed to the operation ends with it
        n = "%s%d" % (m, len(log))
        I.st.emit(("call", m, len(pts), None if cond is None else cond.var))
        flag = field(I, pts[0], "is_identity")
        if m == "add":
            flag = g.boolean(n + "id", "Is")
        r = mks(I, POINT, x=mke(I, NUME, "Allocated", mke(I, COEFF, "One"), g.num(n + "x")),
                y=mke(I, NUME, "Allocated", mke(I, COEFF, "One"), g.num(n + "y")), is_identity=flag)
        log.append((m, [tuple(g.expr_of(field(I, p, f)) for f in ("x", "y", "is_identity")) for p in pts],
                    None if cond is None else g.expr_of(cond), tuple(g.expr_of(field(I, r, f)) for f in ("x", "y", "is_identity"))))
        return ok(r)


def pack(p):
    if len(p.m) < 6:
        return p
    k = min(p.m)
    c = p.m[k]
    return P(T("pack", p.scale(cinv(c)))).scale(c)


class Multiples:
    """which multiple of the base a triple of coordinate expressions is"""

    def __init__(self, base, bits, rest):
        self.tab = {base: ONE}
        self.bits = bits
        self.rest = rest

    def find(self, t, asg=None):
        asg = asg or {}
        x, y, i = t
        same = lambda u, v: u == v or nf(u - v, [subst(r, asg) for r in self.rest]).is_zero()
        if x.is_zero() and y.is_zero() and same(i, ONE):
            return ZERO
        for (a, b, c), m in self.tab.items():
            if a == x and (b == y or b == -y) and same(c, i):
                return m if b == y else -m
        for a in sorted(set(x.atoms()) | set(y.atoms())):
            if a in self.bits and len(asg) < 4:
                m1, m0 = (self.find(tuple(subst(v, {a: e}) for v in t), {**asg, a: e}) for e in (ONE, ZERO))
                if m1 is None or m0 is None:
                    return None
                return m0 + P(tm._all[a]) * (m1 - m0)
        return None


def mul_case(R, prog, key, method, n, top=False):
    """the result of a scalar multiplication is the right multiple of its operand"""
    ch = Chain()
    beta = lambda: P(T("sym", "beta"))

    def mk(g):
        ch.start(g)
        base = g.point("p")
        ks = []
        for i in range(n):
            b = g.bit("k%d" % i)
            if top and i == n - 1:
                var = field(g.I, b, "var")
                g.inputs[var] = ONE
                g.spec_v["k%d" % i] = ONE
                b = mks(g.I, BIT, value=g.opt(True, "bits"), var=var)
            ks.append(b)
        return [g.ref(base), g.I.slice(ks)]
    run = _gadget(R, prog, key, CP + method, mk, None, hooks={**ch.hooks(), ("assoc", "BETA"): lambda I, c, fr, st: beta()}, nout=3,
                  honest_sub=None)
    if run is None:
        return
    g = run.g
    sx = g.spec_x
    ks = [sx["k%d" % i] for i in range(n)]
    ida = next(iter(sx["pid"].atoms()))
    asg = {}
    if top:
        asg = {next(iter(ks[-1].atoms())): ONE}
    s = Solved([e for _, e in run.circ.equations()], g.inputs, assume=asg)
    base = (sx["px"], sx["py"], sx["pid"])
    bits = {a for k in ks for a in k.atoms()}
    M = Multiples(base, bits, s.rest)
    ex = lambda t: tuple(subst(s.expr(x), asg) if asg else s.expr(x) for x in t)
    lo = hi = None
    rng = {ONE: (1, 1), -ONE: (1, 1), ZERO: (0, 0)}  # bounds on the absolute value of each multiple

    def bounds(m):
        if m in rng:
            return rng[m]
        if -m in rng:
            return rng[-m]
        return None
    for j, (m, args, cond, res) in enumerate(ch.log[id(g.I)]):
        ms = [M.find(ex(a)) for a in args]
        if not R.check(key + ":chain", all(x is not None for x in ms),
                       "step %d (%s) has an operand that is no known multiple of the base" % (j, m), "every operand is a recorded multiple of the base"):
            return
        c = None if cond is None else subst(cond, asg) if asg else cond
        a = ms[0]
        if m == "double":
            v = a.scale(2)
        elif m in ("add", "add_incomplete"):
            v = a + ms[1]
        elif m == "double_and_add_incomplete":
            v = a.scale(2) + ms[1]
        elif m == "conditional_neg":
            v = a * (ONE - c.scale(2))
        else:
            v = a * (ONE + c * (beta() - 1))
        v = pack(v) if m in ("conditional_endo",) else v
        # ranges, for the operations that exclude exceptional cases
        bs = [bounds(x) for x in ms]
        if m in ("add_incomplete", "double_and_add_incomplete"):
            # |a| > |b| excludes a = +-b; the sums stay below the group order, so they differ as points too
            okr = bs[0] is not None and bs[1] is not None and bs[0][0] > bs[1][1] and bs[1][0] > 0
            R.check(key + ":no-exception", okr, "step %d (%s): operands of magnitude %s and %s may coincide" % (j, m, bs[0], bs[1]),
                    "the operands of incomplete additions cannot be equal or opposite")
        if all(b is not None for b in bs):
            if m == "double":
                rng[v] = (2 * bs[0][0], 2 * bs[0][1])
            elif m in ("add", "add_incomplete"):
                rng[v] = (max(0, bs[0][0] - bs[1][1]), bs[0][1] + bs[1][1])
            elif m == "double_and_add_incomplete":
                rng[v] = (2 * bs[0][0] - bs[1][1], 2 * bs[0][1] + bs[1][1])
            else:
                rng[v] = bs[0]
            if v.is_const():
                n_ = int(v.m.get((), 0))
                rng[v] = (abs(n_), abs(n_))
            hi = max(hi or 0, rng[v][1])
        M.tab[tuple(res)] = v
    out = [g.expr_of(o) for o in run.outs]
    o1 = ex(tuple(subst(s.expr(x), {ida: ONE}) for x in out))
    o0 = ex(tuple(subst(s.expr(x), {ida: ZERO}) for x in out))
    if method == "multiply":
        m = M.find(ex(tuple(s.expr(x) for x in out)))
        want = sum((P(tm._all[a]).scale(1 << i) for i, a in enumerate(next(iter(k.atoms())) for k in ks)), ZERO)
    else:
        # (an operand that is the identity has the coordinates (0, 0) already)
        same = o1 == ex(tuple(subst(x, {ida: ONE}) for x in base))
        R.check(key + ":identity", same or o1[0].is_zero() and o1[1].is_zero() and o1[2] == ONE,
                "for the identity the result is constrained to %s" % (o1,), "a multiple of the identity is the identity")
        M.tab = {tuple(subst(x, {ida: ZERO}) for x in t): v for t, v in M.tab.items()}
        m = M.find(o0)
        if method == "multiply_fast":
            want = sum((P(tm._all[next(iter(k.atoms()))]).scale(1 << i) for i, k in enumerate(ks[:-1])), ZERO) + P(1 << (n - 1))
        else:
            want = native_scalar(R, prog, ks, beta)
    R.check(key + ":multiple", m is not None and m == want, "returns the multiple %s, expected %s" % (m, want),
            "the returned point is the specified multiple of the operand")
    # an element of Z[beta] of absolute value below the square root of the group order is zero only if it is zero modulo the order
    R.check(key + ":below-order", method != "multiply_endo" or hi is not None and (2 * hi + 2) ** 2 < min(PMOD, QMOD),
            "multiples may reach the group order (%s)" % hi)
    R.check(key + ":below-order", hi is None or method != "multiply_fast" or 2 * hi + 2 < min(PMOD, QMOD), "multiples may reach the group order")


def inv_case(R, prog, key, method, callee, n, pk, top=False):
    """multiplication by an inverse: a witnessed point whose multiple is constrained to be the operand"""
    from .lib import Pt, gen, ptkey, pt_iszero
    log, of, coords = {}, {}, {}
    case = Case(pk, ("Is",))

    def scalar(g):
        k = sum((g.spec_v["k%d" % i].scale(1 << i) for i in range(n)), ZERO)
        return P(T("endoscalar", k)) if callee == "multiply_endo" else k

    def mk(g):
        of[id(g.I)] = g
        log[id(g.I)] = []
        coords.clear()
        (p,) = case.points()
        base = case.operand(g, "p", p, "Is")
        ks = []
        for i in range(n):
            b = g.bit("k%d" % i)
            if top and i == n - 1:
                var = field(g.I, b, "var")
                g.inputs[var] = ONE
                g.spec_v["k%d" % i] = ONE
                b = mks(g.I, BIT, value=g.opt(True, "bits"), var=var)
            ks.append(b)
        g.ks = [g.expr_of(b) for b in ks]
        return [g.ref(base), g.I.slice(ks)]

    def from_xy(I, c, a, fr):
        x, y = I.strip(a[0]), I.strip(a[1])
        (p,) = case.points()
        if x.is_zero() and y.is_zero():
            return Agg(L.CTO, 0, (Pt({}), TRUE))
        if not p.id and (x - p.x).is_zero() and (y - p.y).is_zero():
            return Agg(L.CTO, 0, (gen("P"), TRUE))
        raise Imprecise("from_xy of unknown coordinates")

    def xy(pt):
        (p,) = case.points()
        if pt == gen("P") and not p.id:
            return p.x, p.y
        k = ptkey(pt)
        x, y = P(T("ptx", k)), P(T("pty", k))
        coords[x, y] = pt
        return x, y

    def get_xy(I, c, a, fr):
        pt = I.strip(a[0])
        return Agg(L.CTO, 0, (tup(*xy(pt)), bnot(pt_iszero(pt)))) if isinstance(pt, Pt) else NotImplemented

    def nonzero(p):
        """the scalar is not zero"""
        return subst(P(p), {z: ZERO for z in zeros()})

    def zeros():
        k = scalar(next(iter(of.values())))
        return [a for a in tm.ZOF if nf(tm.ZOF[a][0], [k]).is_zero()] if not k.is_const() else []

    def mul(I, c, a, fr):
        g = of[id(I)]
        pt, bits = None, None
        for x in a:
            y = I.strip(x)
            if isinstance(y, Agg) and y.ty == POINT:
                pt = y
            elif isinstance(y, Agg) and y.ty.endswith("::Namespace"):
                I.st.emit(("pop",))
            elif isinstance(x, Ref) and x.win is not None or isinstance(y, VecV):
                bits = [g.expr_of(b) for b in I.items(L.as_slice(I, x))]
        f = [field(I, pt, k) for k in ("x", "y", "is_identity")]
        val = [None if g.mode != "prove" else nonzero(g.value_of(v)) for v in f]
        m = len(log[id(I)])
        I.st.emit(("call", "multiply", None if bits is None else tuple(bits)))
        if g.mode == "prove":
            if val[2] == ONE:
                out = AP()
            else:
                q = coords.get((val[0], val[1]))
                (p,) = case.points()
                if q is None and not p.id and (val[0], val[1]) == (p.x, p.y):
                    q = gen("P")
                if q is None or not (val[2].is_zero() or pt_iszero(q) is TRUE or b2f(pt_iszero(q)) == val[2]):
                    raise Imprecise("the witness of the inverse is no multiple of the operand: %s" % (val,))
                q = Pt({a: nonzero(w) for a, w in q.scale(scalar(g)).m.items()})
                out = AP(*xy(q)) if q.m else AP()
        else:
            out = AP()
        r = case.operand(g, "m%d" % m, out, "Is")
        log[id(I)].append((tuple(g.expr_of(v) for v in f), bits, tuple(g.expr_of(field(I, r, k)) for k in ("x", "y", "is_identity"))))
        return ok(r)

    def rel(g, o, s):
        x, y, i = o
        return [i * (ONE - i), (ONE - i) * (y * y - x * x * x - BCURVE()), i * x, i * y * y]

    def oncurve(g):
        out = case.curve()
        for (x, y) in list(coords):
            out += [y * y - x * x * x - BCURVE()]
        return out

    def clean(g):
        z = {a: ZERO for a in zeros()}
        for a in list(tm.ZOF):
            t = tm._all[a]
        for pt in list(coords.values()):
            b = b2f(pt_iszero(pt))
            z.update({a: ZERO for a in b.atoms()})
        return z
    hooks = {"curves::Curve::from_xy": from_xy, "curves::Curve::get_xy": get_xy, CP + callee: mul,
             "util::get_challenge_scalar": lambda I, c, a, fr: P(T("endoscalar", I.strip(a[0])))}
    run = _gadget(R, prog, key, CP + method, mk, rel, vrel=lambda g, o, s: [], hooks=hooks, nout=3, vsub=oncurve, honest_sub=clean)
    if run is None:
        return
    g = run.g
    lg = log[id(g.I)]
    if not R.check(key + ":one-multiplication", len(lg) == 1, "%d multiplications" % len(lg)):
        return
    arg, bits, res = lg[0]
    s = Solved([e for _, e in run.circ.equations()], g.inputs)
    o = [g.expr_of(v) for v in run.outs]
    R.check(key + ":argument", all(s.implies_zero(a - b) for a, b in zip(arg, o)), "the multiplied point %s is not the returned one %s" % (arg, o))
    R.check(key + ":scalar", bits == g.ks, "multiplies by %s bits instead of the given ones" % (None if bits is None else len(bits)))
    for nme, a, b in zip("xy", res, (g.spec_x["px"], g.spec_x["py"])):
        R.check(key + ":result-" + nme, s.implies_zero(a - b), "the %s coordinate of the multiple is not constrained to be the operand's" % nme,
                "the multiple of the returned point is constrained to be the operand")


def native_scalar(R, prog, ks, beta):
    """util::get_challenge_scalar on the same bits"""
    from .intdom import mkbits
    I = Interp(prog)
    bs = [bvar(tm._all[next(iter(k.atoms()))]) for k in ks]
    I.hooks["fields::Field::get_lower_128"] = lambda I, c, a, fr: mkbits(bs)
    I.hooks[("assoc", "BETA")] = lambda I, c, fr, st: beta()
    I.hooks["ring.mul"] = lambda a, b: pack(a * b)
    I.hooks["poly.ite"] = lambda c, a, b: pack(b + b2f(c) * (a - b))
    r = I.call_key(prog.fn("util::get_challenge_scalar"), [fe("challenge")], {})
    R.analysed |= I.analysed
    return I.strip(r)


def const_case(R, prog, key):
    tm.reset()
    g = G(prog)
    r = g.call(CP + "identity")
    o = outs(g, r)
    xs = [g.expr_of(v) for v in o]
    R.check("point.identity", len(xs) == 3 and xs[0].is_zero() and xs[1].is_zero() and xs[2] == ONE, "identity() is %s" % (xs,))
    tm.reset()
    g = G(prog)
    r = g.call(CP + "constant", fe("kx"), fe("ky"))
    xs = [g.expr_of(v) for v in outs(g, r)]
    R.check("point.constant", len(xs) == 3 and xs[0] == fe("kx") and xs[1] == fe("ky") and xs[2].is_zero(), "constant(x, y) is %s" % (xs,))
    R.analysed |= g.I.analysed
