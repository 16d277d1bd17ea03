"""Constraint-system plumbing: coefficients and linear combinations (S01), the synthesis driver (S02)
and the development checkers (D01)."""
import itertools
from .gad import *
from . import terms as tm
from . import lib as L

VAR = "circuits::Variable"
CSTR = "circuits::ConstraintSystem"
BACK = "synthesis::Backend"


def tcall(I, trait, m, args, env=None):
    """call a trait method on an abstract or concrete value"""
    dk = None
    p = trait + "::" + m
    if p in I.p.roots:
        dk = I.p.roots[p]
    c = {"p": p, "rp": None, "tr": trait, "m": m, "st": None, "k": None, "ctor": None, "dk": dk, "ra": [], "a": []}
    fr = _Env()
    return I.invoke(c, args, fr, None)


class _Env:
    env = {}
    fn = "?"


# ------------------------------------------------------------------ S01
KINDS = ("Zero", "One", "NegativeOne", "Full")


def coeff_expr(I, c):
    """denotation of a coefficient, read from its constructor (not through the code under analysis)"""
    c = I.strip(c)
    if isinstance(c, Term) and c.op == "ite":
        return I.ite(c.args[0], coeff_expr(I, c.args[1]), coeff_expr(I, c.args[2]))
    k = variant(I, c)
    if k == "Full":
        return I.strip(c.f[0])
    return {"Zero": ZERO, "One": ONE, "NegativeOne": -ONE}[k]


def mkvar(I, kind, i):
    return mke(I, VAR, kind, i)


def var_atom(I, v):
    v = I.resolve(v)
    if isinstance(v, Term) and v.op == "ite":
        return I.ite(v.args[0], var_atom(I, v.args[1]), var_atom(I, v.args[2]))
    if not isinstance(v, Agg):
        raise Imprecise("variable %r" % (v,))
    return P(T("V", variant(I, v), v.f[0]))


def mklc(I, terms):
    return Agg(LC, 0, (I.vec([tup(v, c) for v, c in terms]),))


def lc_expr(I, lc):
    lc = I.strip(lc)
    if isinstance(lc, Term) and lc.op == "ite":
        return I.ite(lc.args[0], lc_expr(I, lc.args[1]), lc_expr(I, lc.args[2]))
    acc = ZERO
    for it in I.items(L.as_slice(I, lc.f[0])):
        it = I.strip(it)
        acc = acc + coeff_expr(I, it.f[1]) * var_atom(I, it.f[0])
    return acc


def mkcoeff(I, name, kind):
    if kind == "Full":
        return mke(I, COEFF, "Full", fe(name))
    return mke(I, COEFF, kind)


def cval(name, kind):
    return {"Zero": ZERO, "One": ONE, "NegativeOne": -ONE, "Full": fe(name)}[kind]


VARS = [("A", 1), ("B", 1), ("C", 2), ("A", 2)]


def symlc(I, pre, kinds, off=0):
    ts, e = [], ZERO
    for i, k in enumerate(kinds):
        v = VARS[(i + off) % len(VARS)]
        ts.append((mkvar(I, *v), mkcoeff(I, "%s%d" % (pre, i), k)))
        e = e + cval("%s%d" % (pre, i), k) * P(T("V", v[0], v[1]))
    return mklc(I, ts), e


def check_s01(R, prog):
    R.notes["explanation"] = (
        "Coefficient operations are interpreted for every combination of stored forms with symbolic payloads, and the result's "
        "denotation is compared in the polynomial ring; linear-combination operators are interpreted on combinations of 0 to 3 "
        "terms in every stored form with distinct variables, and the resulting combination must denote the same polynomial in the "
        "variables; evaluation is interpreted over symbolic assignment slices; the forwarding constraint systems are interpreted "
        "over a recording system and must produce the same events, values and results as the direct call.")
    jobs = [("coeff", s01_coeff, R, prog), ("lc", s01_lc, R, prog), ("evaluate", s01_eval, R, prog), ("forward", s01_fwd, R, prog)]
    R.parallel(jobs)
    R.floor("obligations", len(R.obl), 300)


def s01_coeff(R, prog):
    def fresh():
        reset()
        return Interp(prog)
    for k in KINDS:
        I = fresh()
        a = mkcoeff(I, "a", k)
        va = cval("a", k)
        r = I.call_key(prog.fn("circuits::Coeff::<F>::value"), [I.ref(a)])
        R.check("coeff:value", I.strip(r) == va, "value of the %s form is %s" % (k, r))
        r = I.call_key(prog.fn("circuits::Coeff::<F>::double"), [a])
        R.check("coeff:double", coeff_expr(I, r) == va + va, "double of the %s form gives %s" % (k, coeff_expr(I, r)))
        r = I.call_key(prog.fn("<circuits::Coeff<F> as std::ops::Neg>::neg"), [a])
        R.check("coeff:neg", coeff_expr(I, r) == -va, "negation of the %s form gives %s" % (k, coeff_expr(I, r)))
        r = I.call_key(prog.fn("<circuits::Coeff<F> as std::ops::Mul<F>>::mul"), [a, fe("w")])
        R.check("coeff:mul-field", coeff_expr(I, r) == va * fe("w"), "%s form times w gives %s" % (k, coeff_expr(I, r)))
        w = I.ref(fe("w"))
        I.call_key(prog.fn("circuits::Coeff::<F>::multiply"), [I.ref(a), w])
        R.check("coeff:multiply", I.strip(w) == va * fe("w"), "multiplying w in place by the %s form gives %s" % (k, I.strip(w)))
        for l in KINDS:
            b = mkcoeff(I, "b", l)
            r = I.call_key(prog.fn("<circuits::Coeff<F> as std::ops::Mul>::mul"), [a, b])
            R.check("coeff:mul", coeff_expr(I, r) == va * cval("b", l), "%s form times %s form gives %s" % (k, l, coeff_expr(I, r)))
            r = tob(I.resolve(I.call_key(prog.fn("<circuits::Coeff<F> as std::cmp::PartialEq>::eq"), [I.ref(a), I.ref(b)])))
            # equal coefficients must denote equal values (the converse does not hold for the derived comparison)
            R.check("coeff:eq", band(r, bnot(iszero(va - cval("b", l)))) is FALSE, "%s and %s forms compare equal with different values" % (k, l))
        R.analysed |= I.analysed
    I = fresh()
    r = I.call_key(prog.fn("<circuits::Coeff<F> as std::convert::From<F>>::from"), [fe("w")])
    R.check("coeff:from", coeff_expr(I, r) == fe("w"), "conversion of w gives %s" % (r,))
    return True


LCN = "circuits::LinearCombination<F>"


def s01_lc(R, prog):
    shapes = [()] + [(k,) for k in KINDS] + list(itertools.product(KINDS, repeat=2)) + [("Full", "One", "NegativeOne"), ("Full", "Full", "Zero")]
    n = 0
    for sh in shapes:
        reset()
        I = Interp(prog)

        def op(name, args):
            return lc_expr(I, I.call_key(prog.fn(name), args))

        def base():
            return symlc(I, "a", ("Full", "NegativeOne"), 1)
        for k in KINDS:
            for sgn, tr, m in ((1, "Add", "add"), (-1, "Sub", "sub")):
                lc, e = symlc(I, "c", sh)
                v = mkvar(I, "B", 7)
                got = op("<%s as std::ops::%s<(circuits::Coeff<F>, circuits::Variable)>>::%s" % (LCN, tr, m), [lc, tup(mkcoeff(I, "k", k), v)])
                R.check("lc:%s-term" % m, got == e + (cval("k", k) * P(T("V", "B", 7))).scale(sgn), "%s a %s term to %s terms gives %s" % (m, k, sh, got))
                lc, e = base()
                o, oe = symlc(I, "c", sh)
                got = op("<%s as std::ops::%s<(circuits::Coeff<F>, &'a %s)>>::%s" % (LCN, tr, LCN, m), [lc, tup(mkcoeff(I, "k", k), I.ref(o))])
                R.check("lc:%s-scaled" % m, got == e + (cval("k", k) * oe).scale(sgn), "%s %s times %s gives %s" % (m, k, sh, got))
                n += 2
        for sgn, tr, m in ((1, "Add", "add"), (-1, "Sub", "sub")):
            lc, e = symlc(I, "c", sh)
            v = mkvar(I, "B", 7)
            got = op("<%s as std::ops::%s<circuits::Variable>>::%s" % (LCN, tr, m), [lc, v])
            R.check("lc:%s-var" % m, got == e + P(T("V", "B", 7)).scale(sgn), "got %s" % got)
            lc, e = base()
            o, oe = symlc(I, "c", sh)
            got = op("<%s as std::ops::%s<&'a %s>>::%s" % (LCN, tr, LCN, m), [lc, I.ref(o)])
            R.check("lc:%s-lc" % m, got == e + oe.scale(sgn), "got %s" % got)
            n += 2
        lc, e = symlc(I, "c", sh)
        got = op("<%s as std::clone::Clone>::clone" % LCN, [I.ref(lc)])
        R.check("lc:clone", got == e, "got %s" % got)
        r = I.call_key(prog.fn("<%s as std::convert::AsRef<[(circuits::Variable, circuits::Coeff<F>)]>>::as_ref" % LCN), [I.ref(lc)])
        acc = ZERO
        for it in I.items(L.as_slice(I, r)):
            it = I.strip(it)
            acc = acc + coeff_expr(I, it.f[1]) * var_atom(I, it.f[0])
        R.check("lc:as_ref", acc == e, "exposed terms denote %s, the combination %s" % (acc, e))
        R.analysed |= I.analysed
    reset()
    I = Interp(prog)
    R.check("lc:zero", lc_expr(I, I.call_key(prog.fn("circuits::LinearCombination::<F>::zero"), [])) == ZERO, "")
    for k in "ABC":
        got = lc_expr(I, I.call_key(prog.fn("<%s as std::convert::From<circuits::Variable>>::from" % LCN), [mkvar(I, k, 3)]))
        R.check("lc:from-var", got == P(T("V", k, 3)), "got %s" % got)
    return True


def s01_eval(R, prog):
    N = 3
    for sh in [()] + [(k,) for k in KINDS] + [("Full", "One"), ("NegativeOne", "Full"), ("Zero", "Full"), ("Full",) * 4, ("One", "NegativeOne", "Zero", "Full")]:
        for off in range(4):
            reset()
            I = Interp(prog)
            lc, e = symlc(I, "c", sh, off)
            sl = {k: [fe("%s%d" % (k, i + 1)) for i in range(N)] for k in "ABC"}
            r = I.call_key(prog.fn("circuits::LinearCombination::<F>::evaluate"), [I.ref(lc)] + [I.slice(sl[k]) for k in "ABC"])
            m = {T("V", k, i + 1).id: sl[k][i] for k in "ABC" for i in range(N)}
            R.check("lc:evaluate", I.strip(r) == subst(e, m), "evaluating %s gives %s" % (e, r))
            R.check("lc:evaluate-total", not I.panics or I.st.pc is TRUE, "may panic within range")
            R.analysed |= I.analysed
    return True


class AnyFn:
    """opaque annotation closure"""

    def call(self, I, args):
        return T("str", "name")

    def __hash__(self):
        return 7


def s01_fwd(R, prog):
    """the forwarding constraint systems act as the system they wrap"""
    NSP = "circuits::Namespace"
    pre = {"ns": "<circuits::Namespace<'cs, FF, CS> as circuits::ConstraintSystem<FF>>::",
           "ref": "<&'cs mut CS as circuits::ConstraintSystem<FF>>::"}
    for which in ("ns", "ref"):
        for okv in (True, False):
            reset()
            I = Interp(prog)
            cs = C.new_cs(I, "prove")
            if which == "ns":
                self_ = I.ref(Agg(NSP, 0, (cs, Agg("std::marker::PhantomData", 0, ()))))
            else:
                self_ = I.ref(cs)
            f = lambda m: prog.fn(pre[which] + m)
            an = PyFn(lambda I, a: T("str", "n"))
            val = PyFn(lambda I, a: ok(fe("x")))
            base = len(I.st.events)
            r1 = I.call_key(f("alloc"), [self_, an, val])
            r2 = I.call_key(f("alloc_input"), [self_, an, PyFn(lambda I, a: ok(fe("y")))])
            v3 = PyFn(lambda I, a: ok(tup(fe("p"), fe("q"), fe("r"))))
            r3 = I.call_key(f("multiply"), [self_, an, v3])
            lc = Agg(LC, 0, (I.vec([tup(T("var", "v", 0), mkcoeff(I, "k", "Full")), tup(T("var", "in", 1), mkcoeff(I, "k", "NegativeOne"))]),))
            I.call_key(f("enforce_zero"), [self_, lc])
            root = I.call_key(f("get_root"), [self_])
            v0, v1 = T("var", "v", 0), T("var", "in", 1)
            want = [("alloc", v0, fe("x")), ("input", v1, fe("y")),
                    ("mul", T("var", "a", 2), T("var", "b", 3), T("var", "c", 4), (fe("p"), fe("q"), fe("r"))),
                    ("zero", fe("k") * C.xv(v0) - C.xv(v1))]
            ev = [e for e in I.st.events]
            R.check("forward:%s:events" % which, ev[base:] == want, "forwarded calls reached the underlying system as %s" % (ev,))
            R.check("forward:%s:results" % which, [r1, r2] == [ok(v0), ok(v1)] and r3 == ok(tup(T("var", "a", 2), T("var", "b", 3), T("var", "c", 4))), "results differ from the underlying system's: %s %s %s" % (r1, r2, r3))
            R.check("forward:%s:root" % which, isinstance(root, Ref) and I.strip(root) is I.strip(cs), "get_root does not reach the underlying root")
            if which == "ref":
                n = len(I.st.events)
                I.call_key(f("push_namespace"), [self_, an])
                I.call_key(f("pop_namespace"), [self_, NONE])
                R.check("forward:ref:namespace", [e[0] for e in I.st.events[n:]] == ["push", "pop"], "namespace calls are not forwarded")
            else:
                n = len(I.st.events)
                # entering and leaving a namespace
                ns = I.call_key(prog.fn("circuits::ConstraintSystem::namespace"), [cs, an])
                e1 = [e[0] for e in I.st.events[n:]]
                r = I.ref(ns)
                I.drop_value(ns, r, None)
                e2 = [e[0] for e in I.st.events[n:]]
                R.check("forward:namespace:balance", e1 == ["push"] and e2 == ["push", "pop"], "entering and dropping a namespace gives %s then %s" % (e1, e2))
            R.analysed |= I.analysed
    for which in ("ns", "ref"):
        # errors come back unchanged and ONE is the same variable
        reset()
        I = Interp(prog)
        cs = FailCS()
        cell = I.ref(cs)
        self_ = I.ref(Agg(NSP, 0, (cell, Agg("std::marker::PhantomData", 0, ())))) if which == "ns" else I.ref(cell)
        an = PyFn(lambda I, a: T("str", "n"))
        for m, v in (("alloc", None), ("alloc_input", None), ("multiply", None)):
            r = I.call_key(prog.fn(pre[which] + m), [self_, an, PyFn(lambda I, a: ok(fe("x")))])
            R.check("forward:%s:error" % which, r == err(T("sym", "E")), "an error of %s comes back as %s" % (m, r))
    return True


class FailCS:
    adt = "<cs>"

    def method(self, I, c, m, tr, args, fr):
        if tr != CSTR:
            return NotImplemented
        if m in ("alloc", "alloc_input", "multiply"):
            return err(T("sym", "E"))
        return UNIT


# ------------------------------------------------------------------ S02
class BackV:
    """abstract synthesis backend that records what it is given; in the prover role it evaluates the
    closures and knows the values, in the verifier role it does neither"""
    adt = "<backend>"

    def __init__(self, know):
        self.know = know
        self.gates = 0
        self.kinds = []
        self.vals = {}
        self.lcs = []
        self.kpow = []
        self.ns = []
        self.bad = []

    def __hash__(self):
        return id(self)

    def name(self, I, v):
        v = I.resolve(v)
        if not isinstance(v, Agg):
            raise Imprecise("variable given to the backend: %r" % (v,))
        return (variant(I, v), I.resolve(v.f[0]))

    def method(self, I, c, m, tr, args, fr):
        if tr != BACK:
            return NotImplemented
        if I.st.pc is not TRUE:
            raise Imprecise("conditional call of the backend")
        if m == "get_var":
            n = self.name(I, args[1])
            if not self.know:
                return NONE
            if n not in self.vals:
                if not (isinstance(n[1], int) and 1 <= n[1] <= self.gates):
                    self.bad.append("asks for the value of %s%s, which does not exist" % n)
                return some(ZERO)
            return some(self.vals[n])
        if m == "set_var":
            n = self.name(I, args[2])
            if not (isinstance(n[1], int) and 1 <= n[1] <= self.gates):
                self.bad.append("sets %s%s but only %d gates exist" % (n + (self.gates,)))
            if n in self.vals:
                self.bad.append("sets %s%s twice" % n)
            if self.know:
                r = I.resolve(I.call_value(args[3], []))
                if not (isinstance(r, Agg) and r.ty == RES):
                    raise Imprecise("value closure result")
                if r.var == 1:
                    return err(r.f[0])
                self.vals[n] = I.strip(r.f[0])
            else:
                self.vals[n] = None
            return ok(UNIT)
        if m == "new_multiplication_gate":
            self.gates += 1
            a = I.resolve(args[1])
            self.kinds.append(a.var if isinstance(a, Agg) else None)
            return UNIT
        if m == "new_linear_constraint":
            self.lcs.append(ZERO)
            return T("lcidx", len(self.lcs))
        if m == "insert_coefficient":
            y = I.strip(args[3])
            if not (isinstance(y, Term) and y.op == "lcidx"):
                self.bad.append("inserts into a constraint the backend did not create")
                return UNIT
            n = self.name(I, args[1])
            if not (isinstance(n[1], int) and 1 <= n[1] <= self.gates):
                self.bad.append("constrains %s%s, which does not exist" % n)
            self.lcs[y.args[0] - 1] = self.lcs[y.args[0] - 1] + coeff_expr(I, args[2]) * P(T("V", n[0], n[1]))
            return UNIT
        if m == "new_k_power":
            self.kpow.append((I.resolve(args[1]), I.resolve(args[2])))
            return ok(UNIT)
        if m == "push_namespace":
            self.ns.append("push")
            return UNIT
        if m == "pop_namespace":
            self.ns.append("pop")
            return UNIT
        if m == "get_for_q":
            return T("lcidx", I.resolve(args[1]))
        return NotImplemented


class CircV:
    """abstract circuit: performs a fixed sequence of constraint-system operations"""
    adt = "<circuit>"

    def __init__(self, f):
        self.f = f

    def __hash__(self):
        return id(self)

    def method(self, I, c, m, tr, args, fr):
        if tr == "circuits::Circuit" and m == "synthesize":
            return self.f(I, args[1])
        return NotImplemented


def unok(I, r):
    r = I.resolve(r)
    if not (isinstance(r, Agg) and r.ty == RES and r.var == 0):
        raise Imprecise("operation failed: %r" % (r,))
    return I.resolve(r.f[0])


AN = None


def annot():
    return PyFn(lambda I, a: T("str", "n"))


class Program:
    """interprets an operation sequence on a constraint system and keeps the specification alongside"""

    def __init__(self, ops, know, consts=None):
        self.ops = ops
        self.know = know
        self.vars = []  # (Agg, spec value)
        self.values = {}
        self.want_lc = []
        self.inputs = []
        self.muls = []
        self.ns = []
        self.errors = []
        self.singles = []

    def val(self, n):
        x = fe(n)
        return PyFn(lambda I, a: ok(x)), x

    def add(self, I, v, x):
        n = var_atom(I, v)
        if n in self.values:
            self.errors.append("returns the same variable %s twice" % (n,))
        self.values[n] = x
        self.vars.append(v)
        return n

    def __call__(self, I, cs):
        for i, o in enumerate(self.ops):
            if o == "a":
                f, x = self.val("al%d" % i)
                v = unok(I, tcall(I, CSTR, "alloc", [cs, annot(), f]))
                self.singles.append(self.add(I, v, x))
            elif o == "i":
                f, x = self.val("in%d" % i)
                v = unok(I, tcall(I, CSTR, "alloc_input", [cs, annot(), f]))
                n = self.add(I, v, x)
                self.singles.append(n)
                self.inputs.append((n, x))
                self.want_lc.append(n)
            elif o == "m":
                x = [fe("m%d%s" % (i, k)) for k in "abc"]
                f = PyFn(lambda I, a, x=x: ok(tup(*x)))
                r = unok(I, tcall(I, CSTR, "multiply", [cs, annot(), f]))
                self.muls.append(tuple(self.add(I, I.resolve(v), y) for v, y in zip(r.f, x)))
            elif o in "z2":
                kinds = ("Full", "NegativeOne", "One", "Zero", "Full")
                vs = self.vars[-5:] if o == "z" else self.vars[:1] * 2
                e, ts = ZERO, []
                for j, v in enumerate(vs):
                    k = kinds[(i + j) % 5]
                    ts.append((v, mkcoeff(I, "k%d_%d" % (i, j), k)))
                    e = e + cval("k%d_%d" % (i, j), k) * var_atom(I, v)
                tcall(I, CSTR, "enforce_zero", [cs, mklc(I, ts)])
                self.want_lc.append(e)
            elif o == "n":
                tcall(I, CSTR, "push_namespace", [cs, annot()])
                self.ns.append("push")
            elif o == "p":
                tcall(I, CSTR, "pop_namespace", [cs, NONE])
                self.ns.append("pop")
        return ok(UNIT)


SEQS = None


def sequences(n):
    out = [()]
    for k in range(1, n + 1):
        out += list(itertools.product("aimz", repeat=k))
    return out


def check_s02(R, prog):
    R.notes["explanation"] = (
        "The driver is interpreted over an abstract backend for every sequence of up to four operations (allocation, input, "
        "multiplication, linear constraint) and longer mixed histories, with symbolic values and coefficients, in the prover and the verifier role. "
        "The recorded gates, assignments, constraints and input powers must be exactly those of the operations.")
    seqs = sequences(4)
    seqs += [tuple(s) for s in ("naipz", "aaaaaz", "amamamiz", "iiiiizz", "nnapmpz", "mzmzaz2", "aiaiaimz2z", "mmmmmaamz")]
    jobs = []
    n = 24
    for i in range(n):
        jobs.append(("sequences", s02_run, R, prog, seqs[i::n]))
    R.parallel(jobs)
    R.floor("operation sequences in both roles", len(seqs) * 2, 600)


def s02_run(R, prog, seqs):
    for s in seqs:
        for know in (True, False):
            R.run("sequence", s02_one, R, prog, s, know)
    return True


def s02_one(R, prog, s, know):
    reset()
    I = Interp(prog)
    b = BackV(know)
    P_ = Program(s, know)
    r = I.call_key(prog.fn("<synthesis::Basic as synthesis::SynthesisDriver>::synthesize"), [b, I.ref(CircV(P_))])
    R.analysed |= I.analysed
    w = "".join(s) + ("/prover" if know else "/verifier")
    R.check("result", r == ok(UNIT), "%s: synthesis returns %r" % (w, r))
    R.check("well-formed", not b.bad and not P_.errors, "%s: the driver %s" % (w, "; ".join((b.bad + P_.errors)[:3])))
    one = P(T("V", "A", 1))
    want_lc = [one] + P_.want_lc
    R.check("linear-constraints", b.lcs == want_lc, "%s: backend received constraints %s, the circuit created %s" % (w, b.lcs, want_lc))
    # inputs: ONE first, each tied to its own constraint
    ks = []
    ins = [(one, ONE)] + P_.inputs
    okk = len(b.kpow) == len(ins)
    if okk:
        for (q, v), (n, x) in zip(b.kpow, ins):
            if not (isinstance(q, int) and 1 <= q <= len(b.lcs) and b.lcs[q - 1] == n):
                okk = False
            if isinstance(v, Agg) and v.var == 1 and not (I.strip(v.f[0]) == x):
                okk = False
            if know and not (isinstance(v, Agg) and v.var == 1):
                okk = False
        qs = [q for q, _ in b.kpow]
        okk = okk and len(set(qs)) == len(qs)
    R.check("inputs", okk, "%s: inputs marked as %s" % (w, b.kpow))
    # gates: one per multiplication plus one per pair of single allocations
    nsing = len(P_.singles) + 1
    R.check("gate-count", b.gates == len(P_.muls) + (nsing + 1) // 2, "%s: %d gates for %d multiplications and %d single allocations" % (w, b.gates, len(P_.muls), nsing))
    okm = True
    for m in P_.muls:
        ns = [next(iter(x.m))[0][0] for x in m]
        ts = [tm._all[i].args for i in ns]
        if not (ts[0][0] == "A" and ts[1][0] == "B" and ts[2][0] == "C" and ts[0][1] == ts[1][1] == ts[2][1]):
            okm = False
    R.check("gate-wires", okm, "%s: a multiplication's variables are not the three wires of one gate" % w)
    if know:
        asg = {n: x for n, x in P_.values.items()}
        asg[one] = ONE
        wrong = []
        for n, x in asg.items():
            t = tm._all[next(iter(n.m))[0][0]].args
            if b.vals.get((t[0], t[1])) != x:
                wrong.append((n, b.vals.get((t[0], t[1]))))
        R.check("assignment", not wrong, "%s: variables assigned other values than the circuit gave: %s" % (w, wrong[:3]))
        mulidx = {tm._all[next(iter(m[0].m))[0][0]].args[1] for m in P_.muls}
        bad = []
        for g in range(1, b.gates + 1):
            if g in mulidx:
                continue
            a, bb, c = (b.vals.get((k, g), ZERO) for k in "ABC")
            if a * bb != c:
                bad.append(g)
        R.check("allocation-gates-satisfied", not bad, "%s: allocation gates %s do not satisfy a*b=c" % (w, bad))
    else:
        R.check("no-witness-needed", True)
    R.check("namespaces", b.ns == P_.ns, "%s: namespaces %s" % (w, b.ns))
    return True


# ------------------------------------------------------------------ D01
class Counts:
    adt = "<map>"

    def __init__(self):
        self.log = []

    def __hash__(self):
        return id(self)

    def method(self, I, c, m, tr, args, fr):
        if m == "insert":
            self.log.append(args[2])
            return NONE
        return NotImplemented


def run_checked(I, prog, seq, inputs, driver="basic"):
    """interpret is_satisfied on an operation sequence"""
    P_ = Program(seq, True)
    I.hooks["synthesis::SynthesisDriver::synthesize"] = lambda I, c, args, fr: I.call_key(
        prog.fn("<synthesis::Basic as synthesis::SynthesisDriver>::synthesize"), args)
    r = I.call_key(prog.fn("dev::is_satisfied"), [I.ref(CircV(P_)), I.slice(inputs)])
    return P_, r


def accepts(I, r):
    """condition under which a Result<bool, _> is Ok(true)"""
    r = I.resolve(r)
    if isinstance(r, Term) and r.op == "ite":
        return bite(r.args[0], accepts(I, r.args[1]), accepts(I, r.args[2]))
    if isinstance(r, Agg) and r.ty == RES:
        return tob(I.resolve(r.f[0])) if r.var == 0 else FALSE
    raise Imprecise("verdict %r" % (r,))


def check_d01(R, prog):
    R.notes["explanation"] = (
        "The checker is interpreted over every sequence of up to three operations and longer histories, with symbolic gate values, coefficients, inputs and "
        "assignments; its verdict is a decision diagram over the equations, which must equal the conjunction of every gate equation, "
        "every linear constraint and every public-input equation of the sequence. The counter is interpreted over the same "
        "sequences with namespaces.")
    seqs = sequences(3) + [tuple(s) for s in ("amzi", "immz", "aiaiz", "mimiz", "zmaz2", "mz2im", "aaaazz", "iiiz")]
    jobs = []
    for i in range(16):
        jobs.append(("is_satisfied", d01_run, R, prog, seqs[i::16]))
    jobs.append(("constraint_count", d01_count, R, prog))
    jobs.append(("drivers", d01_driver, R, prog))
    R.parallel(jobs)
    R.floor("operation sequences", len(seqs), 85)


def d01_run(R, prog, seqs):
    for s in seqs:
        R.run("is_satisfied", d01_one, R, prog, s)
    return True


def d01_one(R, prog, s):
    ni = sum(1 for o in s if o == "i")
    for extra in (0, 1, -1):
        if ni + extra < 0 or extra and len(s) > 2:
            continue
        reset()
        I = Interp(prog)
        ins = [fe("pub%d" % i) for i in range(ni + extra)]
        P_, r = run_checked(I, prog, s, ins)
        R.analysed |= I.analysed
        w = "".join(s)
        try:
            acc = accepts(I, r)
        except Imprecise as e:
            R.check("verdict", False, "%s: %s" % (w, e))
            continue
        if extra:
            R.check("input-count", acc is FALSE, "%s: accepted with %d public inputs given for %d declared" % (w, ni + extra, ni))
            continue
        one = {T("V", "A", 1).id: ONE}
        m = dict(one)
        for n, x in P_.values.items():
            m[next(iter(n.m))[0][0]] = x
        want = TRUE
        for (a, b, c) in P_.muls:
            want = band(want, iszero(subst(a * b - c, m)))
        pub = iter(ins)
        inset = {id(n) for n, _ in P_.inputs}
        k = 0
        for e in P_.want_lc:
            rhs = ZERO
            if k < len(P_.inputs) and e is P_.inputs[k][0]:
                rhs = ins[k]
                k += 1
            want = band(want, iszero(subst(e, m) - rhs))
        R.check("verdict", acc is want, "%s: accepted when %s, but the equations hold when %s" % (w, acc, want))
        R.check("verdict:total", I.st.pc is TRUE, "%s: may panic" % w)
    return True


def d01_count(R, prog):
    for s in ("", "a", "aa", "m", "z", "i", "namzp", "nanmppz", "namznipmpz", "anap", "nnzpnzpp", "mnmpm"):
        reset()
        I = Interp(prog)
        mp = Counts()
        I.hooks["std::default::Default::default"] = lambda I, c, args, fr: dflt(I, c, fr, mp)
        for nm in ("std::collections::BTreeMap::<K, V, A>::insert", "std::collections::BTreeMap::<K, V>::insert"):
            I.hooks[nm] = lambda I, c, args, fr: mp.method(I, c, "insert", None, args, fr)
        for nm in ("std::collections::BTreeMap::<K, V>::new",):
            I.hooks[nm] = lambda I, c, args, fr: mp
        P_ = Program(tuple(s), False)
        I.hooks["synthesis::SynthesisDriver::synthesize"] = lambda I, c, args, fr: I.call_key(
            prog.fn("<synthesis::Basic as synthesis::SynthesisDriver>::synthesize"), args)
        I.call_key(prog.fn("dev::constraint_count"), [I.ref(CircV(P_))])
        R.analysed |= I.analysed
        got = []
        for v in mp.log:
            v = I.strip(v)
            cc = I.strip(v.f[0])
            got.append(tuple(field(I, cc, n) for n in ("allocations", "mult_constraints", "total_mults", "total_lcs")))
        # specification: counts of every namespace when it is left (including nested ones), then the root's
        want = []
        st = [[1, 0, 1, 1]]
        half = True
        for o in s:
            if o in "ai":
                st[-1][0] += 1
                if not half:
                    st[-1][2] += 1
                half = not half
                if o == "i":
                    st[-1][3] += 1
            elif o == "m":
                st[-1][1] += 1
                st[-1][2] += 1
            elif o in "z2":
                st[-1][3] += 1
            elif o == "n":
                st.append([0, 0, 0, 0])
            elif o == "p":
                t = st.pop()
                want.append(tuple(t))
                st[-1] = [x + y for x, y in zip(st[-1], t)]
        want.append(tuple(st[-1]))
        R.check("counter", got == want, "%s: counted %s, created %s" % (s, got, want))
    return True


def dflt(I, c, fr, mp):
    t = I.subst(c["st"], fr.env) if c["st"] is not None else None
    if t is not None and t["k"] == "adt" and "BTreeMap" in t["p"]:
        return mp
    return NotImplemented


def d01_driver(R, prog):
    """any driver: gates used for allocation or constraint, constraints filled in any order, inputs at any constraint"""
    for s in ("o", "oA", "oM", "oAA", "oMA", "oAL", "oML", "oLL", "oAMLL", "oMALIL", "oIAIM", "oLIAL", "oMMLI", "oAIML"):
        reset()
        I = Interp(prog)
        st = {}

        def drive(I, c, args, fr):
            b = I.ref(args[0]) if not isinstance(args[0], Ref) else args[0]
            b = I.ref(b)
            eqs, vs, lcs, ks = [], [], [], []
            for i, o in enumerate(s):
                if o in "oAM":
                    tcall(I, BACK, "new_multiplication_gate", [b, NONE if o != "M" else some(annot())])
                    n = len(vs) // 3 + 1
                    xs = []
                    for k in "ABC":
                        x = fe("%s%d" % (k, n))
                        an = some(annot()) if o != "M" and k != "C" else NONE
                        tcall(I, BACK, "set_var", [b, an, mkvar(I, k, n), PyFn(lambda I, a, x=x: ok(x))])
                        vs.append((mkvar(I, k, n), x))
                        xs.append(x)
                    eqs.append(xs[0] * xs[1] - xs[2])
                if o in "oIL":
                    y = tcall(I, BACK, "new_linear_constraint", [b, annot()])
                    e = []
                    for j, (v, x) in enumerate(vs[-4:]):
                        kk = KINDS[(i + j) % 4]
                        e.append((v, mkcoeff(I, "k%d_%d" % (i, j), kk), cval("k%d_%d" % (i, j), kk) * x))
                    lcs.append([y, e, ZERO])
                    if o in "oI":
                        tcall(I, BACK, "new_k_power", [b, len(lcs), NONE])
                        ks.append(len(lcs) - 1)
            for y, e, _ in reversed(lcs):
                for v, cc, _ in e:
                    tcall(I, BACK, "insert_coefficient", [b, v, cc, I.ref(y)])
            for j, k in enumerate(ks):
                lcs[k][2] = ONE if j == 0 else fe("pub%d" % j)
            for y, e, rhs in lcs:
                t = ZERO
                for _, _, p in e:
                    t = t + p
                eqs.append(t - rhs)
            st["eqs"] = eqs
            return ok(UNIT)
        I.hooks["synthesis::SynthesisDriver::synthesize"] = drive
        ins = [fe("pub%d" % (j + 1)) for j in range(s.count("I"))]
        r = I.call_key(prog.fn("dev::is_satisfied"), [I.ref(CircV(None)), I.slice(ins)])
        want = TRUE
        for e in st["eqs"]:
            want = band(want, iszero(e))
        acc = accepts(I, r)
        R.check("verdict:any-driver", acc is want, "%s: accepted when %s, but the equations hold when %s" % (s, acc, want))
    return True
