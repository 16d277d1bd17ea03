"""Gadget properties: number, boolean, word, hash and curve gadgets."""
import itertools
from .gad import *
from . import terms as tm
from .intdom import bit_sources, decompose, bitof, wordpoly, wmax, mask

RULE = ("recorded constraints: honest assignment satisfies all of them; they imply the stated relation; "
        "returned value = assignment of the returned expression; same shape without witness")


def outs(g, r):
    r = g.I.strip(r)
    if isinstance(r, (VecV, tuple, list)):
        return [y for x in g.I.items(L.as_slice(g.I, r)) for y in outs(g, x)]
    if isinstance(r, Agg) and r.ty in ("tuple",):
        return [y for x in r.f for y in outs(g, x)]
    if isinstance(r, Agg) and r.ty == "()":
        return []
    if isinstance(r, Agg) and r.ty in ("gadgets::uint32::UInt32", "gadgets::uint64::UInt64"):
        return outs(g, field(g.I, r, "bits"))
    if isinstance(r, Agg) and r.ty == POINT:
        return [field(g.I, r, n) for n in ("x", "y", "is_identity")]
    return [r]


class Run:
    """both abstract runs of one gadget instance"""

    def __init__(self, prog, path, mk, hooks=None, both=True):
        tm.reset()
        self.v = None
        if both:
            self.v = G(prog, "verify")
            if hooks:
                self.v.I.hooks.update(hooks)
            self.v_args = mk(self.v)
            self.v_ret = self.v.unwrap(self.v.call(path, *self.v_args))
        self.g = G(prog, "prove")
        if hooks:
            self.g.I.hooks.update(hooks)
        self.args = mk(self.g)
        self.ret = self.g.unwrap(self.g.call(path, *self.args))
        self.circ = self.g.finish()
        self.outs = outs(self.g, self.ret)


# ------------------------------------------------------------------ missing witnesses
def missing(R, prog, key, path, mk, hooks):
    """With the values of some inputs absent, and a backend asking for every witness: whatever a witness closure delivers and
    whatever value a result carries is the honest one, otherwise the closure fails, the gadget returns that error and does
    nothing further."""
    tm.reset()
    g = G(prog, "prove")
    if hooks:
        g.I.hooks.update(hooks)
    want = outs(g, g.unwrap(g.call(path, *mk(g))))
    want = [g.value_of(o) for o in want]
    evs = steps(g.I.st.events)
    names = list(g.names)
    sets = [None] + ([{n} for n in names] if 1 < len(names) <= 8 else [])
    for miss in sets:
        what = "no input" if miss is None else "all inputs but " + "".join(miss)
        m = G(prog, "missing", miss=miss)
        if hooks:
            m.I.hooks.update(hooks)
        r = m.I.resolve(m.call(path, *mk(m)))
        R.analysed |= m.I.analysed
        pan = [x for x in m.I.panics if x[0] is not FALSE and "assert:" not in x[1]]
        R.check(key + ":missing-panics", not pan, "with the value of %s: may panic: %s" % (what, pan[:2]))
        got = steps(m.I.st.events)
        failed = FALSE
        for i, (c, e) in enumerate(got):
            if not R.check(key + ":missing-steps", i < len(evs) and evs[i][1][0] == e[0], "with the value of %s: performs another step" % what):
                break
            if e[0] in ("alloc", "input", "mul"):
                R.check(key + ":missing-after", band(c, failed) is FALSE, "with the value of %s: continues after a failed step" % what)
                bad, f = delivered(m.I, e[-1], evs[i][1][-1], c)
                R.check(key + ":missing-value", not bad, "with the value of %s: the witness of step %d (%s) is %s" % (what, i, e[0], bad),
                        "a witness closure without its inputs fails; anything it delivers is the honest value")
                failed = bor(failed, band(c, f))
        bad = result(m, r, want, TRUE, failed)
        R.check(key + ":missing-result", not bad, "with the value of %s: %s" % (what, bad))
    return None


def steps(events):
    """flattened events with the condition under which they happen"""
    out = []

    def go(evs, c):
        for e in evs:
            if e[0] == "branch":
                for b, sub in e[3]:
                    go(sub, band(c, b))
            elif e[0] in ("alloc", "input", "mul", "zero", "call"):
                out.append((c, e))
    go(events, TRUE)
    return out


def delivered(I, r, want, c):
    """(description of a wrong value, condition under which the closure fails)"""
    r = I.resolve(r)
    if isinstance(r, Term) and r.op == "ite":
        b1, f1 = delivered(I, r.args[1], want, band(c, r.args[0]))
        b2, f2 = delivered(I, r.args[2], want, band(c, bnot(r.args[0])))
        return b1 or b2, bor(band(r.args[0], f1), band(bnot(r.args[0]), f2))
    if not isinstance(r, Agg) or r.ty != RES:
        raise Imprecise("witness closure result %r" % (r,))
    if r.var == 1:
        return None, TRUE
    return differs(I, r.f[0], want, c), FALSE


def differs(I, v, want, c):
    v = I.strip(v)
    if isinstance(want, (tuple, list)):
        for x, w in zip(v.f, want):
            d = differs(I, x, w, c)
            if d:
                return d
        return None
    if want is None:
        return "%s, where the honest run delivers none" % (v,)
    a, b = I.strip(v), I.strip(want)
    conv = lambda x: b2f(tob(x)) if isinstance(x, (bool, B)) else x
    a, b = conv(a), conv(b)
    if a is b or isinstance(a, (Poly, int)) and isinstance(b, (Poly, int)) and under(P(a) - P(b), c).is_zero():
        return None
    if isinstance(a, Term) and a.op == "ite":
        return differs(I, a.args[1], want, band(c, a.args[0])) or differs(I, a.args[2], want, band(c, bnot(a.args[0])))
    return "%s instead of %s" % (a, b)


def result(m, r, want, c, failed):
    r = m.I.resolve(r)
    if isinstance(r, Term) and r.op == "ite":
        return result(m, r.args[1], want, band(c, r.args[0]), failed) or result(m, r.args[2], want, band(c, bnot(r.args[0])), failed)
    if isinstance(r, Agg) and r.ty == RES:
        if r.var == 1:
            return None if band(c, bnot(failed)) is FALSE else "fails although no witness closure did"
        if band(c, failed) is not FALSE:
            return "succeeds although a witness closure failed"
        r = r.f[0]
    for o, w in zip(outs(m, r), want):
        v = m.value_of(o)
        if v is not None:
            d = differs(m.I, v, w, c)
            if d:
                return "the result carries %s" % d
    return None


def gadget(R, prog, key, path, mk, rel=None, fails=None, assume=None, boolean_out=False, nout=None,
           honest_sub=None, sound=True, complete=True, coherent=True, vrel=None, hooks=None, cofactors=None, split=None,
           ns=True, vsub=None):
    if R.missing:
        return R.run(key, missing, R, prog, key, path, mk, hooks)

    def go(honest_sub=honest_sub):
        run = Run(prog, path, mk, hooks)
        g, c = run.g, run.circ
        R.analysed |= g.I.analysed
        I = g.I
        # shape
        sp, sv = C.shape(I.st.events), C.shape(run.v.I.st.events)
        R.check(key + ":shape", sp == sv and not c.branches,
                "constraints depend on witness values: %s" % (first_diff(sp, sv, c),), "event sequences with and without a witness are equal")
        if R.only:
            return None
        if ns:
            R.check(key + ":namespaces", c.ns == 0 and c.minns >= 0, "namespace push/pop unbalanced (%d)" % c.ns)
        # failure conditions
        exp = fails(g) if fails else FALSE
        got = FALSE
        for f in c.fails:
            got = bor(got, f)
        R.check(key + ":fails", got is exp, "witness generation fails under %r, expected %r" % (got, exp))
        pan = [x for x in I.panics if x[0] is not FALSE and "assert:" not in x[1]]
        R.check(key + ":panics", not pan, "may panic: %s" % (pan[:2],))
        O = run.outs
        if nout is not None and not R.check(key + ":outputs", len(O) == nout, "%d outputs, expected %d" % (len(O), nout)):
            return run
        xs = [g.expr_of(o) for o in O]
        vs = [g.value_of(o) for o in O]
        R.check(key + ":values-present", all(v is not None for v in vs), "an output carries no value in the prover role")
        hm = hm0 = g.honest()
        words, fes = bit_sources(list(hm.values()) + [v for v in vs if isinstance(v, Poly)] + list(g.spec_v.values()))
        dec = decompose(words, fes)
        if dec:
            user = honest_sub
            honest_sub = lambda g, dec=dec, user=user: {**dec, **(user(g) if user else {})}
        if honest_sub:
            hs = honest_sub(g)
            hm = {k: subst(P(v), hs) for k, v in hm.items()}
            hm.update(hs)
        if complete:
            for n, e in c.equations():
                r = subst(e, hm)
                ok_ = g.zero_under(r) or hm is not hm0 and g.zero_under(subst(e, hm0)) or vsub is not None and nf(r, vsub(g)).is_zero()
                R.check(key + ":complete", ok_, "honest assignment violates %s: %s  (residue %s)" % (n, e, r),
                        "honest assignment satisfies the constraint in normal form")
        if coherent:
            for i, (x, v) in enumerate(zip(xs, vs)):
                if v is None:
                    continue
                r = subst(x, hm) - (subst(P(v), honest_sub(g)) if honest_sub else v)
                R.check(key + ":coherent", g.zero_under(r), "output %d: value %s but denotes %s" % (i, v, subst(x, hm)))
        if rel is not None:
            vr = (vrel or rel)(g, [v for v in vs], g.spec_v)
            for i, r in enumerate(vr):
                r = subst(r, honest_sub(g)) if honest_sub else r
                R.check(key + ":value", g.zero_under(r), "computed value violates the specification: residue %s" % (under(r, I.st.pc),))
            if sound:
                eqs = [e for _, e in c.equations()]
                cases = split(g) if split else [({}, [])]
                for asg, nz, *extra in cases:
                    s = Solved(eqs + (extra[0] if extra else []), g.inputs, nonzero=nz, assume=asg)
                    rl = rel(g, [subst(x, asg) if asg else x for x in xs], {k: subst(v, asg) if asg else v for k, v in g.spec_x.items()})
                    for i, r in enumerate(rl):
                        R.check(key + ":sound", s.implies_zero(subst(r, asg) if asg else r),
                                "constraints do not imply relation %d%s: %s; residue %s with remaining constraints %s" % (
                                    i, " in case %s" % asg if asg else "", r, s.expr(r), s.rest[:4]),
                                "elimination + ideal normal form of the specified relation is zero")
        if boolean_out:
            s = Solved([e for _, e in c.equations()], g.inputs)
            for i, x in enumerate(xs):
                e = s.expr(x)
                R.check(key + ":boolean", renorm(e * e - e).is_zero() or s.implies_zero(x * x - x),
                        "output %d is not constrained to be a bit: %s" % (i, e))
        return run

    return R.run(key, go)


def first_diff(a, b, c):
    if c.branches:
        br = c.branches[0]
        return "branch in %s on %s" % (br[1], [x[0] for x in br[3]][:1])
    for x, y in itertools.zip_longest(a, b):
        if x != y:
            return "prover %r vs verifier %r" % (x, y)
    return ""


# ------------------------------------------------------------------ numbers
def check_num(R, prog):
    A = "gadgets::num::AllocatedNum::<F>::"
    K = "gadgets::num::Combination::<F>::"
    N = "gadgets::num::Num::<F>::"
    okf = lambda g, n="x": g.given(fe(n), n)

    def spec_in(g, n="x"):
        g.spec_v[n] = fe(n)
        return okf(g, n)

    gadget(R, prog, "num.one", A + "one", lambda g: [], lambda g, o, s: [o[0] - 1], nout=1, vrel=lambda g, o, s: [o[0] - 1])
    gadget(R, prog, "num.alloc", A + "alloc", lambda g: [spec_in(g)], None, nout=1)
    gadget(R, prog, "num.alloc_input", A + "alloc_input", lambda g: [spec_in(g)], None, nout=1)
    for f in ("alloc", "alloc_input"):
        def kinds(f=f):
            r = Run(prog, A + f, lambda g: [spec_in(g)])
            ks = [r.circ.kind[v] for v in r.circ.vars]
            R.check("num.%s:kind" % f, ks == (["input"] if f == "alloc_input" else ["alloc"]), "allocates %s" % ks)
            R.check("num.%s:value" % f, r.g.value_of(r.ret) == fe("x"), "carries %s" % (r.g.value_of(r.ret),))
        R.run("num." + f, kinds)
    gadget(R, prog, "num.inputize", A + "inputize", lambda g: [g.ref(g.num("x"))], lambda g, o, s: [o[0] - s["x"]], nout=1)
    gadget(R, prog, "num.mul", A + "mul", lambda g: [g.ref(g.num("x")), g.ref(g.num("y"))],
           lambda g, o, s: [o[0] - s["x"] * s["y"]], nout=1)
    gadget(R, prog, "num.alloc_and_square", A + "alloc_and_square", lambda g: [spec_in(g)],
           lambda g, o, s: [o[1] - o[0] * o[0]], nout=2)
    gadget(R, prog, "num.invert", A + "invert", lambda g: [g.ref(g.num("x"))],
           lambda g, o, s: [o[0] * s["x"] - 1], nout=1, fails=lambda g: iszero(fe("x")))
    gadget(R, prog, "num.sqrt", A + "sqrt", lambda g: [g.ref(g.num("x"))],
           lambda g, o, s: [o[0] * o[0] - s["x"]], nout=1, fails=lambda g: bnot(bvar(T("issq", fe("x")))))
    for kinds in ("a", "ac", "aac", "c"):
        mk = lambda g: [g.ref(g.comb("x", kinds))]
        if kinds != "c":
            gadget(R, prog, "num.rescue_alpha/" + kinds, A + "rescue_alpha", mk, lambda g, o, s: [o[0] - s["x"] ** 5], nout=1)
            gadget(R, prog, "num.rescue_invalpha/" + kinds, A + "rescue_invalpha", mk, lambda g, o, s: [o[0] ** 5 - s["x"]], nout=1)
        gadget(R, prog, "comb.rescue_alpha/" + kinds, K + "rescue_alpha", mk, lambda g, o, s: [o[0] - s["x"] ** 5], nout=1)
        gadget(R, prog, "comb.rescue_invalpha/" + kinds, K + "rescue_invalpha", mk, lambda g, o, s: [o[0] ** 5 - s["x"]], nout=1)
        gadget(R, prog, "comb.evaluate/" + kinds, K + "evaluate", mk, lambda g, o, s: [o[0] - s["x"]], nout=1)
        gadget(R, prog, "comb.square/" + kinds, K + "square", mk, lambda g, o, s: [o[0] - s["x"] * s["x"]], nout=1)
        gadget(R, prog, "comb.scale/" + kinds, K + "scale", lambda g: [g.comb("x", kinds), fe("by")],
               lambda g, o, s: [o[0] - s["x"] * fe("by")], nout=1)
        gadget(R, prog, "comb.lc/" + kinds, K + "lc", mk, lambda g, o, s: [o[0] - s["x"]], nout=1, coherent=False,
               vrel=lambda g, o, s: [])if False else None
        for k2 in ("a", "c", "ca"):
            gadget(R, prog, "comb.mul/%s*%s" % (kinds, k2), K + "mul",
                   lambda g: [g.ref(g.comb("x", kinds)), g.ref(g.comb("y", k2))],
                   lambda g, o, s: [o[0] - s["x"] * s["y"]], nout=1)
    gadget(R, prog, "comb.zero", K + "zero", lambda g: [], lambda g, o, s: [o[0]], nout=1)

    # pure operators: enumerate every operator impl on Num / Combination / AllocatedNum
    n = 0
    for (tr, m), impls in sorted(prog.impls.items(), key=str):
        if tr is None:
            continue
        opn = tr.split("::")[-1]
        if tr not in ("std::ops::Add", "std::ops::Sub", "std::ops::AddAssign", "std::ops::SubAssign", "std::ops::Neg", "std::ops::Mul", "std::convert::From"):
            continue
        for st, path in impls:
            if head(st) not in (NUM, NUME, COMB):
                continue
            for key in prog.bykey.get(path, []):
                n += operator(R, prog, opn, key)
    R.floor("number operator implementations", n, 12)
    gadget(R, prog, "num.scale/a", N + "scale", lambda g: [g.nume("x", "Allocated"), fe("by")], lambda g, o, s: [o[0] - s["x"] * fe("by")], nout=1)
    gadget(R, prog, "num.scale/c", N + "scale", lambda g: [g.nume("x", "Constant"), fe("by")], lambda g, o, s: [o[0] - s["x"] * fe("by")], nout=1)
    gadget(R, prog, "num.constant", N + "constant", lambda g: [fe("k")], lambda g, o, s: [o[0] - fe("k")], nout=1)

    def views():
        """value()/lc() views agree with the denoted expression, for all coefficient variants"""
        for k, ck in itertools.product(("Allocated", "Constant"), ("Zero", "One", "NegativeOne", "Full")):
            tm.reset()
            g = G(prog)
            x = g.nume("x", k, ck)
            v = g.call(N + "value", g.ref(x))
            R.check("num.value/%s/%s" % (k, ck), g.optval(v) == g.spec_v["x"], "value() = %s" % (v,))
            e = g.call(N + "lc", g.ref(x))
            R.check("num.lc/%s/%s" % (k, ck), C.lc_poly(g.I, e) == g.spec_x["x"], "lc() = %s" % (C.lc_poly(g.I, e),))
            R.analysed |= g.I.analysed
        for kinds in ("", "a", "c", "ac", "cca"):
            tm.reset()
            g = G(prog)
            x = g.comb("x", kinds)
            e = g.call(K + "lc", g.ref(x))
            R.check("comb.lc/%s" % kinds, C.lc_poly(g.I, e) == g.spec_x["x"], "lc() = %s" % (C.lc_poly(g.I, e),))
            v = g.call(K + "get_value", g.ref(x))
            R.check("comb.get_value/%s" % kinds, g.optval(v) == g.spec_v["x"], "get_value() = %s" % (v,))
        tm.reset()
        g = G(prog)
        x = g.num("x")
        R.check("num.alloc.lc", C.lc_poly(g.I, g.call(A + "lc", g.ref(x))) == g.spec_x["x"], "lc")
        R.check("num.alloc.get_value", g.optval(g.call(A + "get_value", g.ref(x))) == g.spec_v["x"], "get_value")

    R.run("num views", views)


def check_sbox(R, prog):
    A = "gadgets::num::AllocatedNum::<F>::"
    for kinds in ("a", "ac", "aac"):
        mk = lambda g: [g.ref(g.comb("x", kinds))]
        gadget(R, prog, "num.rescue_alpha/" + kinds, A + "rescue_alpha", mk, lambda g, o, s: [o[0] - s["x"] ** 5], nout=1)
        gadget(R, prog, "num.rescue_invalpha/" + kinds, A + "rescue_invalpha", mk, lambda g, o, s: [o[0] ** 5 - s["x"]], nout=1)


def operator(R, prog, op, key):
    b = prog.bodies[key]
    label = b["path"]

    def build(g, name, tid, kinds):
        t = prog.types[tid]
        if t["k"] == "ref":
            return g.ref(build(g, name, t["t"], kinds))
        if t["k"] == "tuple":
            c = g.coeff(name + "_k", kinds.get("ck", "Full"))
            inner = build(g, name, t["a"][1], kinds)
            k = g.spec_v[name + "_k"]
            g.spec_x[name] = k * g.spec_x[name]
            g.spec_v[name] = k * g.spec_v[name]
            return tup(c, inner)
        if t["k"] == "adt":
            if t["p"] == NUM:
                return g.num(name)
            if t["p"] == NUME:
                return g.nume(name, kinds["num"])
            if t["p"] == COMB:
                return g.comb(name, kinds["comb"])
            if t["p"] == BIT:
                return g.bit(name)
            if t["p"] == COEFF:
                return g.coeff(name, "Full")
        if t["k"] in ("param", "alias"):
            g.spec_x[name] = g.spec_v[name] = fe(name)
            return fe(name)
        raise Imprecise("operator operand " + t["s"])

    def go():
        for kinds in ({"num": "Allocated", "comb": "ac", "ck": "Full"}, {"num": "Constant", "comb": "c", "ck": "NegativeOne"},
                      {"num": "Allocated", "comb": "", "ck": "Zero"}, {"num": "Constant", "comb": "a", "ck": "One"}):
            tm.reset()
            g = G(prog)
            names = ["a", "b"][: b["argc"]]
            args = [build(g, n, b["locals"][i + 1], kinds) for i, n in enumerate(names)]
            a0 = args[0]
            r = g.I.call_key(key, args, {})
            if op.endswith("Assign"):
                r = g.I.load(a0)
            sx, sv = g.spec_x, g.spec_v
            f = {"Add": lambda s: s["a"] + s["b"], "AddAssign": lambda s: s["a"] + s["b"], "Sub": lambda s: s["a"] - s["b"],
                 "SubAssign": lambda s: s["a"] - s["b"], "Neg": lambda s: -s["a"], "Mul": lambda s: s["a"] * s["b"],
                 "From": lambda s: s["a"]}[op]
            R.check(label + ":expr", g.expr_of(r) == f(sx), "denotes %s, expected %s" % (g.expr_of(r), f(sx)))
            v = g.value_of(r)
            R.check(label + ":value", v is not None and v == f(sv), "carries %s, expected %s" % (v, f(sv)),
                    "operator acts identically on the carried value and on the denoted expression")
            # without a witness, no value may be claimed
            tm.reset()
            g = G(prog, "verify")
            args = [build(g, n, b["locals"][i + 1], kinds) for i, n in enumerate(names)]
            r = g.I.call_key(key, args, {})
            if op.endswith("Assign"):
                r = g.I.load(args[0])
            v = g.value_of(r)
            R.check(label + ":missing-result", v is None or v == f(g.spec_v), "carries %s although the operands carry no value" % (v,))
            R.check(label + ":expr-verifier", g.expr_of(r) == f(g.spec_x), "denotes %s without a witness" % (g.expr_of(r),))
            R.analysed.update(g.I.analysed)
        return 1

    return R.run(label, go) or 0


# ------------------------------------------------------------------ booleans
def check_bool(R, prog, core=False):
    A = "gadgets::boolean::AllocatedBit::"
    Bn = "gadgets::boolean::Boolean::"
    F2 = {"xor": lambda a, b: a + b - (a * b).scale(2), "and": lambda a, b: a * b,
          "and_not": lambda a, b: a * (ONE - b), "nor": lambda a, b: (ONE - a) * (ONE - b)}

    def bitclosure(g, n="x"):
        b = bvar(T("bit", T("sym", n), 0))
        g.spec_v[n] = b2f(b)
        return g.given(b, n)

    gadget(R, prog, "bit.one", A + "one", lambda g: [], lambda g, o, s: [o[0] - 1], nout=1)
    gadget(R, prog, "bit.alloc", A + "alloc", lambda g: [bitclosure(g)], lambda g, o, s: [], nout=1, boolean_out=True,
           vrel=lambda g, o, s: [o[0] - s["x"]], sound=False)
    gadget(R, prog, "bit.alloc_input_unchecked", A + "alloc_input_unchecked", lambda g: [bitclosure(g)],
           lambda g, o, s: [o[0] - s["x"]], sound=False, nout=1)

    def unchecked_kind():
        r = Run(prog, A + "alloc_input_unchecked", lambda g: [bitclosure(g)])
        R.check("bit.alloc_input_unchecked:kind", [r.circ.kind[v] for v in r.circ.vars] == ["input"] and not r.circ.equations(),
                "does not allocate exactly one public input")
    R.run("bit.alloc_input_unchecked", unchecked_kind)

    def raw_bit(g):
        x = g.bit("x")
        tm.IDEM.discard(T("X", T("var", "pre", "x")).id)
        return [g.ref(x)]

    def check_is_bit():
        run = Run(prog, A + "check", raw_bit)
        tm.IDEM.discard(T("X", T("var", "pre", "x")).id)
        s = Solved([e for _, e in run.circ.equations()], run.g.inputs)
        x = C.xv(T("var", "pre", "x"))
        R.check("bit.check:boolean", s.implies_zero(x * x - x) or renorm(s.expr(x * x - x)).is_zero(),
                "check() does not constrain the bit: %s" % (s.rest,))
    R.run("bit.check", check_is_bit)
    gadget(R, prog, "bit.check", A + "check", lambda g: [g.ref(g.bit("x"))], None, nout=0)
    for op, f in F2.items():
        gadget(R, prog, "bit." + op, A + op, lambda g: [g.ref(g.bit("a")), g.ref(g.bit("b"))],
               lambda g, o, s: [o[0] - f(s["a"], s["b"])], nout=1)
    KS = ("Is", "Not", "T", "F")
    for k in KS:
        gadget(R, prog, "boolean.not/" + k, Bn + "not", lambda g: [g.ref(g.boolean("a", k))],
               lambda g, o, s: [o[0] - (ONE - s["a"])], nout=1)
        for k2 in KS:
            for op in ("xor", "and"):
                gadget(R, prog, "boolean.%s/%s%s" % (op, k, k2), Bn + op,
                       lambda g: [g.ref(g.boolean("a", k)), g.ref(g.boolean("b", k2))],
                       lambda g, o, s: [o[0] - F2[op](s["a"], s["b"])], nout=1)
            R.run("boolean.enforce_equal/%s%s" % (k, k2), enforce_equal, R, prog, Bn + "enforce_equal", k, k2)
            for k3 in KS:
                gadget(R, prog, "boolean.ch/%s%s%s" % (k, k2, k3), Bn + "sha256_ch",
                       lambda g: [g.ref(g.boolean("a", k)), g.ref(g.boolean("b", k2)), g.ref(g.boolean("c", k3))],
                       lambda g, o, s: [o[0] - (s["a"] * s["b"] + (ONE - s["a"]) * s["c"])], nout=1)
                gadget(R, prog, "boolean.maj/%s%s%s" % (k, k2, k3), Bn + "sha256_maj",
                       lambda g: [g.ref(g.boolean("a", k)), g.ref(g.boolean("b", k2)), g.ref(g.boolean("c", k3))],
                       lambda g, o, s: [o[0] - (s["a"] * s["b"] + s["a"] * s["c"] + s["b"] * s["c"] - (s["a"] * s["b"] * s["c"]).scale(2))], nout=1)

    if core:
        return

    def views():
        for k in KS:
            for ck in ("Zero", "One", "NegativeOne", "Full"):
                tm.reset()
                g = G(prog)
                b = g.boolean("a", k)
                c = g.coeff("k", ck)
                r = g.call(Bn + "lc", g.ref(b), T("var", "ONE"), c)
                e = C.lc_poly(g.I, r)
                R.check("boolean.lc/%s/%s" % (k, ck), e == g.spec_x["a"] * g.spec_v["k"], "lc() denotes %s" % e)
                r = g.call(Bn + "get_value", g.ref(b))
                R.check("boolean.get_value/" + k, g.optval(r) == g.spec_v["a"], "get_value() = %s" % (r,))
                r = g.call(Bn + "is_constant", g.ref(b))
                R.check("boolean.is_constant/" + k, tob(r) is (TRUE if k in "TF" else FALSE), "is_constant() = %s" % (r,))
                R.analysed.update(g.I.analysed)
            tm.reset()
            g = G(prog, "verify")
            r = g.call(Bn + "get_value", g.ref(g.boolean("a", k)))
            R.check("boolean.get_value-unknown/" + k, (g.optval(r) is None) == (k not in "TF"), "get_value() = %s" % (r,))
        tm.reset()
        g = G(prog)
        v = bvar(T("bit", T("sym", "v"), 0))
        r = g.call(Bn + "constant", v)
        R.check("boolean.constant", g.value_of(r) == b2f(v), "constant(b) = %s" % (r,))
    R.run("boolean views", views)

    # a bit converted into Boolean keeps its meaning
    def conv():
        n = 0
        for st, path in prog.impls.get(("std::convert::From", "from"), []):
            if head(st) == BOOL:
                for key in prog.bykey[path]:
                    n += operator(R, prog, "From", key)
        R.floor("conversions into Boolean", n, 1)
    R.run("boolean conversions", conv)

    # decomposition of a field element into bits
    U = "gadgets::boolean::unpack_fe"
    for kind in ("Allocated", "Constant"):
        run = gadget(R, prog, "unpack_fe/" + kind, U, lambda g: [g.ref(g.nume("x", kind, "Full"))],
                     lambda g, o, s: [sum((b.scale(1 << i) for i, b in enumerate(o)), ZERO) - s["x"]],
                     boolean_out=True, fails=None)
        if run is not None:
            run_canon(R, run, "unpack_fe")


def run_canon(R, run, key):
    """bit decomposition is unique iff the integer range of the recomposed value stays below the modulus"""
    top = sum(1 << i for i in range(len(run.outs)))
    lim = min(PMOD, QMOD)
    R.check(key + ":canonical", top < lim,
            "%d bits are only constrained to recompose to the element modulo the field order, so x and x + order are both accepted" % len(run.outs))


PMOD = 0x5c5e464a35c12769bac2a757742b393081be9c1a3201248299fffe7d00000001
QMOD = 0x5c5e464a35c12769bac2a757742b39311b849d0f1801860419fffe7d00000001


def enforce_equal(R, prog, path, k, k2):
    key = "boolean.enforce_equal/%s%s" % (k, k2)
    tm.reset()
    g = G(prog)
    a, b = g.boolean("a", k), g.boolean("b", k2)
    r = g.call(path, g.ref(a), g.ref(b))
    r = g.I.resolve(r)
    if k in "TF" and k2 in "TF":
        good = isinstance(r, Agg) and r.var == (0 if k == k2 else 1)
        R.check(key + ":constants", good, "two constants: %r" % (r,))
        if r.var == 1:
            R.check(key + ":error", variant(g.I, r.f[0]) == "Unsatisfiable", "error %r" % (r,))
        return
    g.unwrap(r)
    c = g.finish()
    eqs = [e for _, e in c.equations()]
    d = g.spec_x["a"] - g.spec_x["b"]
    s = Solved(eqs, g.inputs)
    R.check(key + ":sound", s.implies_zero(d), "constraints %s do not imply equality" % (eqs,))
    R.check(key + ":complete", all(e.is_const() and e.is_zero() or groebner_in(e, d) for e in eqs),
            "constraints %s are not implied by equality" % (eqs,))
    R.analysed.update(g.I.analysed)


def groebner_in(e, d):
    return nf(e, [d]).is_zero()


# ------------------------------------------------------------------ words
def sha_op_jobs(R, prog):
    """obligations behind the summaries used for the hash"""
    return [("booleans", lambda: (check_bool(R, prog, core=True), True)[1])] + word_jobs(R, prog, 32)


def word_jobs(R, prog, only=None):
    jobs = [("u32.addmany/%d" % n, lambda n=n: (words(R, prog, only, n), True)[1]) for n in range(10, 1, -1)]
    return jobs + [("words", lambda: (words(R, prog, only, None), True)[1])]


def check_words(R, prog):
    jobs = word_jobs(R, prog)
    rs = R.parallel(jobs)
    R.floor("word analyses", sum(rs), len(jobs))


def words(R, prog, only, adds):
    for w in (32, 64) if only is None else (only,):
        U = "gadgets::uint%d::UInt%d::" % (w, w)
        path = "gadgets::uint%d::UInt%d" % (w, w)

        def bits_value(g, r, w=w):
            r = g.I.strip(r)
            return outs(g, r), field(g.I, r, "value")

        def wordval(g, o):
            o = g.I.resolve(o)
            if isinstance(o, Term) and o.op == "ite":
                return g.I.ite(o.args[0], wordval(g, o.args[1]), wordval(g, o.args[2]))
            if isinstance(o, Agg) and o.ty == OPT:
                return g.I.resolve(o.f[0]) if o.var == 1 else None
            raise Imprecise("word value %r" % (o,))

        def coherent(key, run, expect=None):
            """the word value carried agrees with the bits carried"""
            if run is None:
                return
            g = run.g
            bs, v = bits_value(g, run.ret)
            W = wordval(g, v)
            R.check(key + ":word", W is not None, "no word value in the prover role")
            if W is None:
                return
            for i, b in enumerate(bs):
                R.check(key + ":word-bits", b2f(bitof(W, i)) == g.value_of(b),
                        "bit %d of the value is %s but the bit carries %s" % (i, b2f(bitof(W, i)), g.value_of(b)))
            R.check(key + ":word-range", wmax(W) <= mask(w), "word value may exceed %d bits" % w)
            vv = run.v
            bs, v = bits_value(vv, run.v_ret)
            W = wordval(vv, v)
            allc = all(vv.value_of(b) is not None for b in bs)
            R.check(key + ":word-unknown", (W is not None) == allc, "value known without a witness: %s" % (W,))

        def rots(f):
            return lambda g, o, s: [o[i] - f(s, i) for i in range(w)]

        gd = lambda key, m, mk, rel, nout=w, **kw: coherent("u%d.%s" % (w, key), gadget(R, prog, "u%d.%s" % (w, key), U + m, mk, rel, nout=nout, **kw))
        sw = T("word", "k", w)

        def const_spec(g):
            W = T("word", "k", w)
            for i in range(w):
                g.spec_v["k_%d" % i] = g.spec_x["k_%d" % i] = b2f(bitof(W, i))
            return W
        mixes = {"is": ["Is"], "mixed": ["Is", "Not", "T", "Is", "F"], "const": ["T", "F", "F"]}
        if adds is not None:
            for pat in (["is"], ["is", "const"], ["mixed", "is"], ["const"]):
                addmany(R, prog, U, adds, pat, mixes, coherent)
            return
        gd("constant", "constant", lambda g: [const_spec(g)], rots(lambda s, i: s["k_%d" % i]))
        gd("alloc", "alloc", lambda g: [g.opt(const_spec(g), "k")],
           rots(lambda s, i: s["k_%d" % i]), sound=False, boolean_out=True)
        mixes = {"is": ["Is"], "mixed": ["Is", "Not", "T", "Is", "F"], "const": ["T", "F", "F"]}
        for mk_, kinds in mixes.items():
            def bits(g, rev=False):
                r = g.word("a", w, kinds)
                it = g.I.items(L.as_slice(g.I, field(g.I, r, "bits")))
                return g.I.slice(it[::-1] if rev else it)
            gd("from_bits/" + mk_, "from_bits", lambda g: [bits(g)], rots(lambda s, i: s["a_%d" % i]))
            gadget(R, prog, "u%d.into_bits/%s" % (w, mk_), U + "into_bits", lambda g: [g.word("a", w, kinds)],
                   rots(lambda s, i: s["a_%d" % i]), nout=w)
            if w == 32:
                gd("from_bits_be/" + mk_, "from_bits_be", lambda g: [bits(g, True)], rots(lambda s, i: s["a_%d" % i]))
                gadget(R, prog, "u%d.into_bits_be/%s" % (w, mk_), U + "into_bits_be", lambda g: [g.word("a", w, kinds)],
                       rots(lambda s, i: s["a_%d" % (w - 1 - i)]), nout=w)
        if w == 64:
            break
        for by in range(0, 65):
            gd("rotr/%d" % by, "rotr", lambda g: [g.ref(g.word("a", w)), by], rots(lambda s, i: s["a_%d" % ((i + by) % w)]))
        for by in range(0, w):
            gd("shr/%d" % by, "shr", lambda g: [g.ref(g.word("a", w)), by],
               rots(lambda s, i: s["a_%d" % (i + by)] if i + by < w else ZERO))
        gd("shr/mixed", "shr", lambda g: [g.ref(g.word("a", w, mixes["mixed"])), 7],
           rots(lambda s, i: s["a_%d" % (i + 7)] if i + 7 < w else ZERO))
        for (m1, ka), (m2, kb) in itertools.product(list(mixes.items()), repeat=2):
            gd("xor/%s,%s" % (m1, m2), "xor", lambda g: [g.ref(g.word("a", w, ka)), g.ref(g.word("b", w, kb))],
               rots(lambda s, i: s["a_%d" % i] + s["b_%d" % i] - (s["a_%d" % i] * s["b_%d" % i]).scale(2)))
        for trip in (("is", "is", "is"), ("is", "mixed", "const"), ("const", "is", "mixed"), ("mixed", "const", "is"), ("const", "const", "const")):
            mk3 = lambda g: [g.ref(g.word(n, w, mixes[k])) for n, k in zip("abc", trip)]
            t = ",".join(trip)
            gd("ch/" + t, "sha256_ch", mk3, rots(lambda s, i: s["a_%d" % i] * s["b_%d" % i] + (ONE - s["a_%d" % i]) * s["c_%d" % i]))
            gd("maj/" + t, "sha256_maj", mk3, rots(lambda s, i: s["a_%d" % i] * s["b_%d" % i] + s["a_%d" % i] * s["c_%d" % i]
                                                   + s["b_%d" % i] * s["c_%d" % i] - (s["a_%d" % i] * s["b_%d" % i] * s["c_%d" % i]).scale(2)))
    if only == 32:
        return
    U = "gadgets::uint64::UInt64::"
    for ks in (("is", "is", "is", "is"), ("is", "const", "is", "const"), ("const", "is", "const", "is"), ("mixed", "is", "is", "is")):
        mul_acc2(R, prog, U, ks, mixes)
    for k, kinds in mixes.items():
        def lcv():
            tm.reset()
            g = G(prog)
            x = g.word("a", 64, kinds)
            e = C.lc_poly(g.I, g.call(U + "lc", g.ref(x)))
            R.check("u64.lc/" + k, e == g.spec_x["a"], "lc() denotes %s" % e)
            R.analysed.update(g.I.analysed)
        R.run("u64.lc", lcv)


def addmany(R, prog, U, n, pat, mixes, coherent):
    key = "u32.addmany/%d/%s" % (n, "+".join(pat))

    def go():
        names = ["w%d" % j for j in range(n)]
        mk = lambda g: [g.I.slice([g.word(m, 32, mixes[pat[j % len(pat)]]) for j, m in enumerate(names)])]
        run = gadget(R, prog, key, U + "addmany", mk, None, nout=32, boolean_out=pat != ["const"])
        if run is None:
            return
        coherent(key, run)
        g = run.g
        # value: the sum of the operands modulo 2^32
        bs = run.outs
        total = L.I_add([g.words[m] for m in names])
        for i, b in enumerate(bs):
            R.check(key + ":value", g.value_of(b) == b2f(bitof(total, i)), "bit %d of the result carries %s" % (i, g.value_of(b)))
        if pat == ["const"]:
            return
        # soundness: some constraint equates the result with the sum modulo 2^32 over the integers
        out = sum((g.expr_of(b).scale(1 << i) for i, b in enumerate(bs)), ZERO)
        rel = out - sum((g.spec_x[m] for m in names), ZERO)
        modular(R, key, run, rel, 32)
    R.run(key, go)


def modular(R, key, run, rel, bits):
    s = Solved([], run.g.inputs)
    found = None
    eqs = [e for _, e in run.circ.equations()]
    idem = Solved(eqs, run.g.inputs)
    rel = idem.expr(rel)
    rest = [e for e in run.circ.zeros]
    for e0 in rest:
        e = e0
        # bring duplicates of the same bit onto one representative, keeping this constraint
        others = [x for x in eqs if x != e0]
        s2 = Solved(others, run.g.inputs)
        e = s2.expr(e)
        r2 = s2.expr(rel) if False else s2.expr(run_rel(run, bits))
        if e.is_zero():
            continue
        for sign in (1, -1):
            d = e.scale(sign) - r2
            co = [c for c in d.m.values()]
            if all(isinstance(c, int) and c % (1 << bits) == 0 for c in co):
                lo = sum(c for k, c in e.m.items() if k and c < 0) + e.m.get((), 0)
                hi = sum(c for k, c in e.m.items() if k and c > 0) + e.m.get((), 0)
                isbits = all(len(k) == 1 and k[0][0] in tm.IDEM for k in e.m if k)
                if isbits and -PMOD < lo and hi < PMOD:
                    found = e
    R.check(key + ":sound", found is not None,
            "no constraint forces the result to be the sum modulo 2^%d (all bits boolean, no wrap-around modulo the field order)" % bits,
            "a linear constraint over bits equals result - sum modulo 2^%d and its integer range lies within the field" % bits)


def run_rel(run, bits):
    g = run.g
    out = sum((g.expr_of(b).scale(1 << i) for i, b in enumerate(run.outs)), ZERO)
    return out - sum((g.spec_x[m] for m in sorted(g.words)), ZERO)


def mul_acc2(R, prog, U, ks, mixes):
    key = "u64.mul_acc2/" + ",".join(ks)

    def go():
        names = ["a", "b", "c", "d"]
        mk = lambda g: [g.ref(g.word(m, 64, mixes[k])) for m, k in zip(names, ks)]
        rel = lambda g, o, s: [sum((x.scale(1 << i) for i, x in enumerate(o)), ZERO) - s["a"] * s["b"] - s["c"] - s["d"]]
        run = gadget(R, prog, key, U + "mul_acc2", mk, rel, nout=128, boolean_out=True)
        if run is None:
            return
        g = run.g
        lo, hi = [g.I.strip(x) for x in run.ret.f]
        for nm, x, off in (("low", lo, 0), ("high", hi, 64)):
            v = field(g.I, x, "value")
            W = g.I.resolve(v.f[0]) if isinstance(v, Agg) and v.var == 1 else None
            R.check(key + ":word", W is not None, "no word value")
            bs = outs(g, x)
            R.check(key + ":limbs", len(bs) == 64, "%s limb has %d bits" % (nm, len(bs)))
            if W is not None:
                for i, b in enumerate(bs):
                    R.check(key + ":word-bits", b2f(bitof(W, i)) == g.value_of(b), "%s bit %d" % (nm, i))
    R.run(key, go)
