"""Development helpers: the determinism checker (D03)."""
import itertools
from .p_core import *
from .interp import Diverge

DET = "dev::determinism_check"


class TwoPass:
    """abstract circuit whose first and second synthesis issue the given operation sequences; coefficients named
    by pass when `own` is set, so that the verdict is a condition on them"""
    adt = "<circuit>"

    def __init__(self, seqs, own, failing=None):
        self.seqs, self.own, self.failing = seqs, own, failing
        self.n = 0
        self.log = [[], []]
        self.asked = [0, 0]
        self.errors = []

    def __hash__(self):
        return id(self)

    def method(self, I, c, m, tr, args, fr):
        if tr == "circuits::Circuit" and m == "synthesize":
            p = self.n
            self.n += 1
            if p > 1:
                raise Imprecise("synthesised more than twice")
            return self.go(I, args[1], p)
        return NotImplemented

    def value(self, p, i, x):
        def f(I, a):
            self.asked[p] += 1
            if self.failing == (p, i):
                return err(T("sym", "E"))
            return ok(x)
        return PyFn(f)

    def go(self, I, cs, p):
        vs = [mkvar(I, "A", 0)]  # ONE
        one = I.resolve(I.const_assoc(CSTR, "ONE", cs)) if hasattr(I, "const_assoc") else None
        seen = {("A", 0)}

        def fresh(v):
            v = I.resolve(v)
            k = (variant(I, v), v.f[0])
            if k in seen:
                self.errors.append("variable %s%s handed out twice" % k)
            seen.add(k)
            vs.append(v)
            return v
        for i, o in enumerate(self.seqs[p]):
            x = fe("x%d" % i)
            r = None
            if o in "ai":
                r = I.resolve(tcall(I, CSTR, "alloc" if o == "a" else "alloc_input", [cs, annot(), self.value(p, i, x)]))
                if r.var == 0:
                    fresh(r.f[0])
                self.log[p].append((o,))
            elif o == "m":
                r = I.resolve(tcall(I, CSTR, "multiply", [cs, annot(), self.value(p, i, tup(x, fe("y%d" % i), fe("w%d" % i)))]))
                if r.var == 0:
                    for v in I.resolve(r.f[0]).f:
                        fresh(v)
                self.log[p].append((o,))
            elif o in "zZsrb1e":
                # z: last three variables; Z: the same with other forms; s: one term fewer; r: the terms in reverse order of
                # variables; b: an earlier variable; 1: ONE only; e: no terms
                use = {"z": vs[-3:], "Z": vs[-3:], "s": vs[-3:-1], "r": vs[-3:][::-1], "b": vs[-4:-1], "1": vs[:1], "e": []}[o]
                kinds = ("Full", "One", "NegativeOne") if o != "Z" else ("Full", "NegativeOne", "One")
                ts, den = [], []
                for j, v in enumerate(use):
                    nm = "k%d_%d" % (i, j) + ("_%d" % p if self.own else "")
                    ts.append((v, mkcoeff(I, nm, kinds[j % 3])))
                    den.append((var_atom(I, v), cval(nm, kinds[j % 3])))
                tcall(I, CSTR, "enforce_zero", [cs, mklc(I, ts)])
                self.log[p].append(("z", den))
            elif o == "n":
                tcall(I, CSTR, "push_namespace", [cs, annot()])
            elif o == "p":
                tcall(I, CSTR, "pop_namespace", [cs, NONE])
            if r is not None and r.var == 1:
                return err(r.f[0])
        return ok(UNIT)


def same(a, b):
    """conditions under which two operation logs are the same: (as they stand, as polynomials)"""
    if len(a) != len(b):
        return FALSE, FALSE
    s = v = TRUE
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return FALSE, FALSE
        if x[0] == "z":
            e = ZERO
            for n, k in x[1]:
                e = e + n * k
            for n, k in y[1]:
                e = e - n * k
            # every coefficient of every variable
            by = {}
            for sg, t in ((1, x[1]), (-1, y[1])):
                for n, k in t:
                    key = next(iter(n.m))[0][0]
                    by[key] = by.get(key, ZERO) + k.scale(sg)
            for q in by.values():
                v = band(v, iszero(q))
            if len(x[1]) != len(y[1]):
                s = FALSE
            else:
                for (n, k), (n2, k2) in zip(x[1], y[1]):
                    s = band(s, band(iszero(k - k2), TRUE if n == n2 else FALSE))
    return s, v


def verdict(I, prog, circ):
    try:
        r = I.resolve(I.call_key(prog.fn(DET), [I.ref(circ)]))
    except Diverge:
        return FALSE, None
    def acc(r):
        r = I.resolve(r)
        if isinstance(r, Term) and r.op == "ite":
            return bite(r.args[0], acc(r.args[1]), acc(r.args[2]))
        return TRUE if isinstance(r, Agg) and r.ty == RES and r.var == 0 else FALSE
    return band(I.st.pc, acc(r)), r


def check_d03(R, prog):
    R.notes["explanation"] = (
        "The checker is interpreted over an abstract circuit whose two syntheses issue given operation sequences: every pair of sequences of up to "
        "three operations, and longer pairs that differ in one place, with coefficients symbolic and independent between the two runs. Its verdict, a decision diagram over the "
        "coefficients, must exclude every pair that differs and include every identical pair. Failing witness closures and errors are followed too.")
    base = [()]
    for k in (1, 2, 3):
        base += list(itertools.product("aimz", repeat=k))
    pairs = [(a, b) for a in base for b in base if len(a) + len(b) <= 5 or a[:2] == b[:2]]
    long_ = [tuple(s) for s in ("aimzz", "mzaz", "aazmz", "imzmz", "aanzpm")]
    for s in long_:
        pairs.append((s, s))
        for i in range(len(s)):
            pairs.append((s, s[:i] + s[i + 1:]))
            pairs.append((s[:i] + s[i + 1:], s))
            for o in "aimzZsrb1e":
                if o != s[i]:
                    pairs.append((s, s[:i] + (o,) + s[i + 1:]))
            for o in "aimze":
                pairs.append((s, s[:i] + (o,) + s[i:]))
                pairs.append((s[:i] + (o,) + s[i:], s))
        for o in "aimz1e":
            pairs.append((s, s + (o,)))
            pairs.append((s + (o,), s))
    jobs = [("pairs", d03_pairs, R, prog, pairs[i::24]) for i in range(24)] + [("errors", d03_errors, R, prog)]
    R.parallel(jobs)
    R.floor("pairs of operation sequences", len(pairs), 2000)
    R.floor("obligations", len(R.obl), 6000)


def d03_pairs(R, prog, pairs):
    for a, b in pairs:
        R.run("pair", d03_one, R, prog, a, b)
    return True


def d03_one(R, prog, a, b):
    w = "%s then %s" % ("".join(a) or "nothing", "".join(b) or "nothing")
    for own in (False, True):
        reset()
        I = Interp(prog)
        c = TwoPass((a, b), own)
        acc, r = verdict(I, prog, c)
        R.analysed |= I.analysed
        if c.n == 2:
            R.check("variables", not c.errors, "%s: %s" % (w, c.errors[:2]))
        # a run cut short by a refusal leaves a partial log: compare what the circuit would have issued
        full = logs(prog, a, b, own)
        s, v = same(*full)
        if c.n < 2:
            R.check("both-runs", False, "%s: the circuit is synthesised %d times" % (w, c.n))
            continue
        R.check("refuses-different", band(acc, bnot(v)) is FALSE, "%s: accepted although the two runs issue different operations" % w)
        R.check("accepts-identical", band(s, bnot(acc)) is FALSE, "%s: refused when %s although the two runs are identical" % (w, band(s, bnot(acc))))
        R.check("no-witness-in-first-run", c.asked[0] == 0, "%s: the run without witness asks for %d values" % (w, c.asked[0]))
        if acc is not FALSE:
            n = sum(1 for o in b if o in "aim")
            R.check("witness-in-second-run", c.asked[1] == n, "%s: the run with witness asks for %d of %d values" % (w, c.asked[1], n))
    return True


class Plain:
    """recording system with consecutive variables"""
    adt = "<cs>"

    def __init__(self):
        self.n = 1

    def __hash__(self):
        return id(self)

    def method(self, I, c, m, tr, args, fr):
        if tr != CSTR:
            return NotImplemented
        if m in ("alloc", "alloc_input"):
            self.n += 1
            return ok(mkvar(I, "A", self.n - 1))
        if m == "multiply":
            self.n += 3
            return ok(tup(*[mkvar(I, "A", self.n - 3 + j) for j in range(3)]))
        return UNIT


def logs(prog, a, b, own):
    I = Interp(prog)
    c = TwoPass((a, b), own)
    for p in (0, 1):
        c.go(I, Plain(), p)
    return c.log


def d03_errors(R, prog):
    """an error of either synthesis is the verdict"""
    for s in ("a", "i", "m", "aim", "mzaz"):
        for i, o in enumerate(s):
            if o not in "aim":
                continue
            reset()
            I = Interp(prog)
            c = TwoPass((tuple(s), tuple(s)), False, (1, i))
            acc, r = verdict(I, prog, c)
            R.check("witness-error", r == err(T("sym", "E")), "%s: a witness error at operation %d gives %r" % (s, i, r))
    for p in (0, 1):
        reset()
        I = Interp(prog)

        class Fails(TwoPass):
            def go(self, I, cs, q):
                r = TwoPass.go(self, I, cs, q)
                return err(T("sym", "E")) if q == p else r
        c = Fails((("a",), ("a",)), False)
        acc, r = verdict(I, prog, c)
        R.check("synthesis-error", r == err(T("sym", "E")), "an error of run %d gives %r" % (p + 1, r))
        R.analysed |= I.analysed
    return True


# ------------------------------------------------------------------ D04
def fields_of(I, c):
    c = I.strip(c)
    return {n[0]: v for n, v in zip(typeinfo(I.p, c.ty)["v"][0]["f"], c.f)}


def fresh_interp(prog, k1, k2, npay):
    from . import p_rec as M
    I = Interp(prog)
    p1 = M.widen(I, M.params(I, k1, "G"), "G", 80 + 16 * npay)
    p2 = M.widen(I, M.params(I, k2, "H"), "H", 80 + 16 * npay)
    M.short_bytes(I)

    def ddummy(I, c, a, fr):
        return M.abstract_deferred(I, I.resolve(a[0]), "dummyd_")[0]

    def ldummy(I, c, a, fr):
        pr = I.strip(a[0])
        return M.abstract_leftovers(I, field(I, pr, "k"), "dummy%s_" % ("1" if M.same(I, pr, p1) else "2"))[0]
    I.hooks[M.PR + "Deferred::<F>::dummy"] = ddummy
    I.hooks[M.PR + "Leftovers::<C>::dummy"] = ldummy
    return I, p1, p2


def d04_case(R, prog, k1, k2, npay, step):
    from . import p_rec as M
    reset()
    w = "%s, sizes %d/%d, %d bytes" % ("step" if step else "base case", k1, k2, npay)
    inner = Agg("<inner>", 0, ())
    pay = lambda t: M.payload_bytes(t, npay)

    def old(I):
        if not step:
            return NONE
        return some(I.ref(M.recproof(I, k2, k1, "o_", pay("old"))[0]))
    # what is proved
    I, p1, p2 = fresh_interp(prog, k1, k2, npay)
    ca = M.Calls(I, k1, k2)
    made = M.okv(I, I.call_key(prog.fn(M.RP + "::<E1, E2>::create_proof"), [I.ref(p1), I.ref(p2), old(I), I.ref(inner), I.slice(pay("new"))]))
    proved = fields_of(I, ca.new[0][1])
    # what the verifier of that proof is given
    I2, q1, q2, cb = I, p1, p2, M.Calls(I, k1, k2)
    M.okv(I2, I2.call_key(prog.fn(M.RP + "::<E1, E2>::verify"), [I2.ref(made), I2.ref(q1), I2.ref(q2), I2.ref(inner)]))
    vinp = [I2.strip(x) for x in I2.items(L.as_slice(I2, cb.proof[0][4]))]
    verified = fields_of(I2, cb.proof[0][3])
    R.check("verifier:total", I.st.pc is TRUE, "%s: the prover or verifier may panic here: %s" % (w, [p for p in I.panics if p[0] is not FALSE][:1]))
    # what the development checkers look at
    I3, r1, r2, cc = I, p1, p2, M.Calls(I, k1, k2)
    n0 = len(I.panics)
    seen = []
    out = T("sym", "verdict")

    def sat(I, c, a, fr):
        seen.append([I.strip(a[0]), [I.strip(x) for x in I.items(L.as_slice(I, a[1]))]])
        return out
    I3.hooks["dev::is_satisfied"] = sat
    r = I3.call_key(prog.fn("dev::recursive_is_satisfied"), [I3.ref(r1), I3.ref(r2), old(I3), I3.ref(inner), I3.slice(pay("new"))])
    R.check("satisfied:verdict", I3.resolve(r) is out and len(seen) == 1, "%s: the verdict is %r, not the satisfiability check's" % (w, r))
    if seen:
        f = fields_of(I3, seen[0][0])
        R.check("satisfied:fields", set(f) == set(proved), "%s: another kind of circuit" % w)
        for n in sorted(proved):
            a, b = f.get(n), proved[n]
            R.check("satisfied:circuit:" + n, a is not None and same_v(I3, M, a, b),
                    "%s: the checked circuit differs from the proved one in %s: %s against %s" % (w, n, str(a)[:200], str(b)[:200]))
        n = next((i for i, (x, y) in enumerate(zip(seen[0][1], vinp)) if x != y), min(len(vinp), len(seen[0][1])))
        R.check("satisfied:inputs", seen[0][1] == vinp, "%s: the public inputs checked are not those of the verifier; number %d is %s, not %s"
                % (w, n, str(seen[0][1][n:n + 1])[:200], str(vinp[n:n + 1])[:200]))
    R.check("satisfied:panics", not [p for p in I3.panics[n0:] if p[0] is not FALSE], "%s: may panic" % w)
    # the counter
    I4, s1, s2 = I, p1, p2
    cnt = []

    def count(I, c, a, fr):
        cnt.append(I.strip(a[0]))
        return out
    I4.hooks["dev::constraint_count"] = count
    r = I4.call_key(prog.fn("dev::recursive_constraint_count"), [I4.ref(s2), I4.ref(inner), I4.slice(pay("new"))])
    R.check("count:result", I4.resolve(r) is out and len(cnt) == 1, "%s: the counts are %r, not the counter's" % (w, r))
    if cnt:
        f = fields_of(I4, cnt[0])
        for n in sorted(verified):
            a, b = f.get(n), verified[n]
            R.check("count:circuit:" + n, a is not None and same_v(I4, M, a, b), "%s: the counted circuit differs from the verifier's in %s" % (w, n))
    R.analysed |= I4.analysed
    R.floor("public inputs compared (%s)" % w, len(vinp), 8 * npay + 48)
    R.floor("circuit fields compared (%s)" % w, len(proved), 5)
    return True


def same_v(I, M, a, b):
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(a, Agg) and a.ty == OPT and isinstance(b, Agg) and b.ty == OPT:
        return a.var == b.var and (a.var == 0 or same_v(I, M, a.f[0], b.f[0]))
    return M.same(I, a, b)


def check_d04(R, prog):
    R.notes["explanation"] = (
        "The recursive checker and counter are interpreted next to the prover and the verifier on the same abstract parameters, old proof, inner circuit and payload; "
        "the circuit the checker examines must equal the circuit handed to the prover field by field, its public inputs must equal "
        "those the verifier computes for the proof so made, its verdict must be the satisfiability check's (D01), and the counter must be "
        "given the verifier's circuit. With and without an old proof.")
    jobs = []
    for k1, k2 in ((3, 3), (3, 4), (4, 3), (5, 3)):
        for npay in (0, 1, 3):
            for step in (False, True):
                jobs.append(("case", d04_case, R, prog, k1, k2, npay, step))
    rs = R.parallel(jobs)
    R.floor("cases", sum(rs), len(jobs))
