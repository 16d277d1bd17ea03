"""Recursion: layout of the public inputs (V01), the in-circuit verifier (V02), the base case (V03), the recursive verifier (V04)."""
import os
from .gad import *
from . import terms as tm
from . import lib as L
from . import cs as C
from .intdom import bitof, mkbits
from . import p_proof as pp
from .p_proof import (params, abstract_proof, abstract_leftovers, okv, enc, show, Tr, PR, struct_eq, b_of)
from .p_core import tcall

RC = "recursion::"
RP = RC + "RecursiveProof"
NDEF = ("x", "y_old", "y_cur", "y_new", "ky_opening", "tx_positive_opening", "tx_negative_opening", "sx_cur_opening", "rx_opening",
        "rxy_opening", "gx_old_opening", "b_x", "b_xy", "b_y_old", "b_y_cur", "b_y_new")


def abstract_deferred(I, k, tag):
    f = {n: fe(tag + n) for n in NDEF}
    f["challenges_sq_packed_old"] = [fe("%sco%d" % (tag, i)) for i in range(k)]
    f["challenges_sq_packed_new"] = [fe("%scn%d" % (tag, i)) for i in range(k)]
    return mks(I, PR + "Deferred", **{a: I.vec(b) if isinstance(b, list) else b for a, b in f.items()}), f


def recproof(I, k1, k2, tag, payload):
    """a recursive proof with independent contents; k1: size on the proof's own curve"""
    f = {}
    pv, f["proof"] = abstract_proof(I, k1, tag)
    l1, f["oldproof1"] = abstract_leftovers(I, k1, tag + "l1_")
    l2, f["oldproof2"] = abstract_leftovers(I, k2, tag + "l2_")
    d, f["deferred"] = abstract_deferred(I, k2, tag + "d_")
    f["payload"] = payload
    v = mks(I, RP, proof=pv, oldproof1=l1, oldproof2=l2, deferred=d, payload=I.vec(payload))
    f["_oldproof1"], f["_oldproof2"], f["_deferred"], f["_proof"] = l1, l2, d, pv
    return v, f


def same(I, a, b):
    """structural equality of two abstract values through references and vectors"""
    a, b = I.strip(a), I.strip(b)
    if a is b:
        return True
    if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty:
        return a.var == b.var and len(a.f) == len(b.f) and all(same(I, x, y) for x, y in zip(a.f, b.f))
    try:
        xs, ys = I.items(L.as_slice(I, a)), I.items(L.as_slice(I, b))
        return len(xs) == len(ys) and all(same(I, x, y) for x, y in zip(xs, ys))
    except (Imprecise, AttributeError, TypeError):
        pass
    return type(a) == type(b) and a == b


def payload_bytes(tag, n):
    return [T("byte", T("payload", tag), i) for i in range(n)]


class Calls:
    def __init__(self, I, k1, k2):
        self.proof, self.left, self.deferred, self.new = [], [], [], []
        self.k = (k1, k2)

        def pverify(I, c, a, fr):
            n = len(self.proof)
            kf = field(I, a[2], "k")
            self.proof.append([I.strip(x) for x in a])
            lo, lf = abstract_leftovers(I, kf, "new%d_" % n)
            de, df = abstract_deferred(I, kf, "newd%d_" % n)
            fv = [T("fork", n, i) for i in range(kf)]
            self.out = (lo, de, fv, lf, df)
            return ok(tup(bvar(T("ok", "proof", n)), lo, de, I.vec(fv)))

        def lverify(I, c, a, fr):
            self.left.append([I.strip(x) for x in a])
            return ok(bvar(T("ok", "leftovers", self.lname(I, a[0]), field(I, a[1], "k"))))

        def dverify(I, c, a, fr):
            self.deferred.append([I.strip(x) for x in a])
            return bvar(T("ok", "deferred", str(field(I, a[0], "x")), I.resolve(a[1])))

        def pnew(I, c, a, fr):
            self.new.append([I.strip(x) for x in a])
            kf = field(I, a[0], "k")
            lo, lf = abstract_leftovers(I, kf, "made_")
            pv, pf = abstract_proof(I, kf, "made_")
            self.made = pv
            return ok(tup(pv, lo))
        I.hooks[PR + "Proof::<C>::verify"] = pverify
        I.hooks[PR + "Proof::<C>::new"] = pnew
        I.hooks[PR + "Leftovers::<C>::verify"] = lverify
        I.hooks[PR + "Deferred::<F>::verify"] = dverify

    def lname(self, I, v):
        return str(field(I, v, "s_new_commitment"))


def short_bytes(I):
    """Leftovers and Deferred encodings replaced by two bytes each that name the object"""
    def enc2(kind, fld):
        def h(I, c, a, fr):
            return I.vec([T("byte", T("enc", kind, str(field(I, a[0], fld))), i) for i in range(2)])
        return h
    I.hooks[PR + "Leftovers::<C>::to_bytes"] = enc2("leftovers", "s_new_commitment")
    I.hooks[PR + "Deferred::<F>::to_bytes"] = enc2("deferred", "x")


def setup(prog, k1=3, k2=4, gens=400):
    tm.reset()
    I = Interp(prog)
    p1, p2 = params(I, k1, "G"), params(I, k2, "H")
    if gens:
        p1 = widen(I, p1, "G", gens)
        p2 = widen(I, p2, "H", gens)
    return I, p1, p2


def widen(I, p, tag, n):
    t = typeinfo(I.p, PR + "Params")
    fs = []
    for f, v in zip(t["v"][0]["f"], p.f):
        if f[0] == "generators":
            v = I.vec([L.gen("%s%d" % (tag, i)) for i in range(n)])
        elif f[0] == "generators_xy":
            ks = [L.ptkey(L.gen("%s%d" % (tag, i))) for i in range(n)]
            v = I.vec([tup(P(T("ptx", q)), P(T("pty", q))) for q in ks])
        fs.append(v)
    return Agg(p.ty, p.var, fs)


def run_verify(prog, npay=2):
    I, p1, p2 = setup(prog)
    ca = Calls(I, 3, 4)
    short_bytes(I)
    rp, f = recproof(I, 3, 4, "o_", payload_bytes("o", npay))
    inner = Agg("<inner>", 0, ())
    r = I.call_key(prog.fn(RP + "::<E1, E2>::verify"), [I.ref(rp), I.ref(p1), I.ref(p2), I.ref(inner)])
    return I, ca, rp, f, p1, p2, inner, okv(I, r)


def circuit_ok(R, I, key, c, params_, payload, inner):
    """a verifier's instance of the recursive circuit: given parameters and payload, nothing of the prover's"""
    c = I.strip(c)
    t = typeinfo(I.p, c.ty)
    seen = set()
    for n, v in zip(t["v"][0]["f"], c.f):
        v = I.resolve(v)
        w = I.strip(v)
        if isinstance(w, Agg) and w.ty == PR + "Params":
            R.check(key + ":params", same(I, w, params_), "the circuit is built for the wrong parameters")
            seen.add("params")
        elif isinstance(w, Agg) and w.ty == OPT:
            R.check(key + ":prover data", w.var == 0, "the verifier's circuit carries a value in field %s" % n[0])
        elif isinstance(w, Agg) and w.ty == "<inner>":
            seen.add("inner")
        elif isinstance(v, Ref):
            R.check(key + ":payload", [I.resolve(x) for x in I.items(L.as_slice(I, v))] == list(payload), "the circuit is built for another payload")
            seen.add("payload")
    R.check(key + ":complete", seen == {"params", "inner", "payload"}, "fields understood: %s" % sorted(seen))


def v04_case(R, prog, npay):
    I, ca, rp, f, p1, p2, inner, r = run_verify(prog, npay)
    r = tob(I.resolve(r))
    pan = [p for p in I.panics if p[0] is not FALSE]
    R.check("panics", not pan, "a well-formed proof makes the verifier panic: %s" % (pan[:1],))
    if not R.check("proof:once", len(ca.proof) == 1, "the outer proof is verified %d times" % len(ca.proof)):
        return False
    me, lo, pr, ci, inp, kc = ca.proof[0]
    R.check("proof:proof", same(I, me, f["_proof"]), "another proof is verified")
    R.check("proof:leftovers", same(I, lo, f["_oldproof1"]), "the outer proof is verified against %s" % ca.lname(I, lo))
    R.check("proof:params", same(I, pr, p1), "the outer proof is verified with the wrong parameters")
    circuit_ok(R, I, "proof:circuit", ci, p2, f["payload"], inner)
    le = lambda f_: [T("byte", T("enc", "leftovers", str(f_["s_new_commitment"])), i) for i in range(2)]
    by = list(f["payload"]) + le(f["oldproof1"]) + le(f["oldproof2"]) + [T("byte", T("enc", "deferred", str(f["deferred"]["x"])), i) for i in range(2)]
    bits = [b2f(bitof(b, i)) for b in by for i in range(8)]
    got = [I.strip(x) for x in I.items(L.as_slice(I, inp))]
    R.check("proof:inputs", got == bits, "the public inputs are not the bits of payload, both leftovers and the deferred values in order: %s"
            % show(next((g for g, w in zip(got, bits) if g != w), len(got))))
    want = L.gen("G1")
    for i, b in enumerate(bits):
        want = want + L.gen("G%d" % (i + 2)).scale(b)
    kc = I.resolve(kc)
    R.check("proof:k", kc.var == 1 and I.strip(kc.f[0]) == want, "the commitment to the public inputs handed to the verifier is not the inputs'")
    nlo, nde, fv, lf, df = ca.out
    need = [("the outer proof", bvar(T("ok", "proof", 0))),
            ("the deferred values carried by the proof", bvar(T("ok", "deferred", str(f["deferred"]["x"]), 4))),
            ("the deferred values of the outer proof", bvar(T("ok", "deferred", str(df["x"]), 3))),
            ("the leftovers of the outer proof", bvar(T("ok", "leftovers", str(lf["s_new_commitment"]), 3))),
            ("the leftovers carried by the proof", bvar(T("ok", "leftovers", str(f["oldproof2"]["s_new_commitment"]), 4)))]
    conj = TRUE
    for nm, b in need:
        conj = band(conj, b)
        R.check("accepts:" + nm, band(r, bnot(b)) is FALSE, "RecursiveProof::verify accepts although the check of %s fails" % nm,
                "acceptance implies every component check")
    R.check("accepts:exactly", r is conj, "RecursiveProof::verify is not the conjunction of its component checks: %s" % show(r))
    for a in ca.left:
        mine = same(I, a[0], nlo)
        R.check("leftovers:values", mine or same(I, a[0], f["_oldproof2"]), "leftovers %s are checked" % ca.lname(I, a[0]))
        p, q = (p1, p2) if mine else (p2, p1)
        R.check("leftovers:params", same(I, a[1], p), "leftovers are checked with the wrong parameters")
        circuit_ok(R, I, "leftovers:circuit", a[2], q, f["payload"], inner)
    for a in ca.deferred:
        R.check("deferred:values", same(I, a[0], nde) or same(I, a[0], f["_deferred"]), "other deferred values are checked")
    R.analysed |= I.analysed
    return True


def check_v04(R, prog):
    R.notes["explanation"] = (
        "RecursiveProof::verify is interpreted on a recursive proof whose every component is an independent symbol; the outcomes of the "
        "proof, deferred and leftovers checks (decided by the rules of P02, in the same run) are independent boolean atoms named by the object, size and parameters they "
        "were given. The result must be exactly the conjunction over all five components, each on the right object with the right "
        "parameters and circuit, and the public inputs and their commitment must be the bits of the four parts in order.")
    ns = (0, 1, 2, 5)
    # the component checks themselves (the rules of P02)
    comp = [("component", pp.p02_proof, R, prog, 3, (0, 1, 0), True), ("component", pp.p02_deferred, R, prog, 3),
            ("component", pp.p02_leftovers, R, prog, 3)]
    rs = R.parallel([("payload", v04_case, R, prog, n) for n in ns] + comp)
    R.floor("payload sizes and component checks analysed", sum(rs), len(ns) + len(comp))
    R.assumptions += ["payload lengths up to the analysed ones stand for all", "the encodings of leftovers and deferred values are opaque here (V01)"]


# ------------------------------------------------------------------ the recursive circuit
CP = "gadgets::ecc::CurvePoint::<C>::"
AB = "gadgets::boolean::AllocatedBit::"
RG = "gadgets::rescue::RescueGadget::<F>::"


class GTr(Tr):
    adt = "gadgets::rescue::RescueGadget"


class GP:
    """in-circuit point: an abstract point (free generators for witnessed ones)"""
    adt = POINT

    def __init__(self, p):
        self.p = p

    def __hash__(self):
        return hash(self.p)

    def __eq__(self, o):
        return isinstance(o, GP) and self.p == o.p

    def __repr__(self):
        return "GP(%r)" % (self.p,)

    def method(self, I, c, m, tr, args, fr):
        if m == "clone" and tr == "std::clone::Clone":
            return self
        return NotImplemented


class Inner:
    """the application circuit"""
    adt = "<inner>"

    def __init__(self, base):
        self.base = base
        self.calls = []

    def method(self, I, c, m, tr, args, fr):
        if tr != "circuits::RecursiveCircuit":
            return NotImplemented
        if m == "base_payload":
            return I.vec(list(self.base))
        if m == "synthesize":
            self.calls.append(([I.strip(x) for x in I.items(L.as_slice(I, args[2]))], [I.strip(x) for x in I.items(L.as_slice(I, args[3]))]))
            return ok(UNIT)
        return NotImplemented


def big(p):
    """points with many generators get a name of their own"""
    if len(p.m) > 64:
        t = T("big", L.ptkey(p))
        return Pt_({T("gen", t).id: ONE})
    return p


def Pt_(m):
    return L.Pt(m)


def packbits(bits):
    return P(T("packbits", tuple(bits)))


def endo(bits):
    t = T("endo", tuple(bits))
    tm.NONZERO.add(t.id)
    return P(t)


BETA = (1 << 89) - 1  # a generic integer: the identities below are compared coefficient by coefficient in it
LIMIT = 32


def monic(p):
    k = min(p.m)
    c = p.m[k]
    return p.scale(cinv(c)), c


def isbit(k):
    return len(k) == 1 and k[0][1] == 1 and tm._all[k[0][0]].op in ("wbit", "inbit", "ubit")


def norm(p):
    """long sums become atoms: first the sum of bits, then, if still long, everything (a function of the spelled-out sum)"""
    p = unpack_lin(p)
    if len(p.m) <= LIMIT:
        return p
    b = {k: c for k, c in p.m.items() if isbit(k)}
    if len(b) > LIMIT:
        q, c = monic(Poly(b))
        p = Poly({k: v for k, v in p.m.items() if k not in b}) + P(T("pack", q)).scale(c)
    if len(p.m) > LIMIT:
        q, c = monic(p)
        p = P(T("pack", q)).scale(c)
    return p


def vmul(a, b):
    if a.is_const():
        return b.scale(a.m.get((), 0)) if not a.is_zero() else ZERO
    if b.is_const():
        return a.scale(b.m.get((), 0)) if not b.is_zero() else ZERO
    return norm(a) * norm(b)


def sqroot(x):
    x = norm(x)
    s = T("sqrt", x)
    if s.id not in tm.SQRTOF:
        tm.SQRTOF[s.id] = x
        tm.NONZERO.add(s.id)
    return P(s)


def ring(I):
    I.hooks["ring.mul"] = vmul
    I.hooks["ring.norm"] = norm
    I.hooks["ring.sqrt"] = lambda I, x: Agg(L.CTO, 0, (sqroot(x), TRUE))
    I.hooks["poly.ite"] = lambda c, a, b: b + vmul(b2f(c), a - b)
    I.hooks[("assoc", "BETA")] = lambda I, c, fr, st: P(BETA)


class Run:
    """one abstract synthesis of the recursive circuit"""

    def __init__(self, I, mode):
        self.I, self.mode = I, mode
        self.inputs, self.wbits, self.checked = [], [], set()
        self.points = []
        self.hist = []
        self.xy = {}
        self.mults = []
        self.hooks()

    def opt(self, v):
        return some(v) if self.mode == "prove" else NONE

    def bit(self, b):
        return mks(self.I, BIT, value=self.opt(b), var=T("var", "sem", b))

    def bitx(self, v):
        """boolean denoted by an AllocatedBit"""
        v = self.I.strip(v)
        var = field(self.I, v, "var")
        if isinstance(var, Term) and var.op == "var":
            if var.args == ("ONE",):
                return TRUE
            if var.args[0] == "sem" and isinstance(var.args[1], B):
                return var.args[1]
        raise Imprecise("not a bit of the circuit: %r" % (var,))

    def bits(self, s):
        I = self.I
        return [self.bitx(x) for x in I.items(L.as_slice(I, s))]

    def num(self, x):
        I = self.I
        return mke(I, NUME, "Allocated", mke(I, COEFF, "One"), mks(I, NUM, value=self.opt(x), var=T("var", "sem", x)))

    def numx(self, v):
        g = G.__new__(G)
        g.I = self.I
        return g.expr_of(v)

    def known(self, p):
        """register a point whose coordinates may reappear as constants"""
        k = L.ptkey(p)
        self.xy[(P(T("ptx", k)), P(T("pty", k)))] = p

    def hooks(self):
        I = self.I
        H = I.hooks

        def val(f):
            if self.mode != "prove":
                return None
            return C.split_ok(I, I.call_value(f, []))

        def alloc(I, c, a, fr):
            v = val(a[1])
            n = len(self.wbits)
            self.wbits.append(None if v is None else tob(I.resolve(v)))
            I.st.emit(("bit", n))
            return ok(self.bit(bvar(T("wbit", n))))

        def alloc_input(I, c, a, fr):
            v = val(a[1])
            n = len(self.inputs)
            self.inputs.append(None if v is None else tob(I.resolve(v)))
            I.st.emit(("input", T("var", "sem", bvar(T("inbit", n))), None))
            return ok(self.bit(bvar(T("inbit", n))))

        def check(I, c, a, fr):
            b = self.bitx(a[0])
            self.checked.add(b)
            I.st.emit(("checkbit", b))
            return ok(UNIT)
        H[AB + "alloc"] = alloc
        H[AB + "alloc_input_unchecked"] = alloc_input
        H[AB + "check"] = check

        def unpack(I, c, a, fr):
            x = self.numx(a[1])
            I.st.emit(("unpack", x))
            return ok(I.vec([self.bit(bvar(T("ubit", x, i))) for i in range(256)]))
        H["gadgets::boolean::unpack_fe"] = unpack

        # points
        def pt(v):
            v = I.strip(v)
            if not isinstance(v, GP):
                raise Imprecise("not a point of the circuit: %r" % (v,))
            return v.p

        def constant(I, c, a, fr):
            x, y = I.strip(a[0]), I.strip(a[1])
            p = self.xy.get((x, y))
            if p is None:
                raise Imprecise("constant point with unknown coordinates %r" % (x,))
            return GP(p)

        def witness(I, c, a, fr):
            v = val(a[1])
            n = len(self.points)
            self.points.append(v)
            I.st.emit(("witness", n))
            return ok(GP(L.gen(T("w", n))))

        def get_xy(I, c, a, fr):
            p = big(pt(a[0]))
            return tup(*[self.num(x) for x in enc(p)])

        def mul(I, c, a, fr):
            b = self.bits(a[2])
            I.st.emit(("multiply", tuple(b)))
            self.mults.append(tuple(b))
            return ok(GP(big(pt(a[0])).scale(packbits(b))))

        def mulendo(inv):
            def h(I, c, a, fr):
                b = self.bits(a[2])
                if len(b) != 128:
                    raise Diverge("multiply_endo takes 128 bits")
                s = endo(b)
                I.st.emit(("multiply_endo", inv, tuple(b)))
                return ok(GP(big(pt(a[0])).scale(inv0(s) if inv else s)))
            return h

        def add(I, c, a, fr):
            I.st.emit(("add",))
            return ok(GP(pt(a[0]) + pt(a[2])))

        def addc(I, c, a, fr):
            p, q = pt(a[0]), pt(a[2])
            b = I.strip(a[3])
            x = self.numb(b)
            if set(p.m) & set(q.m):
                raise Imprecise("incomplete addition of dependent points")
            if any(isinstance(tm._all[k].args[0], Term) and tm._all[k].args[0].op == "w" for k in list(p.m)[:1] + list(q.m)):
                raise Imprecise("incomplete addition of a witnessed point")
            I.st.emit(("addc", x))
            return ok(GP(p + q.scale(x)))
        for n, f in (("constant", constant), ("witness", witness), ("get_xy", get_xy), ("multiply", mul), ("multiply_endo", mulendo(False)),
                     ("multiply_inv_endo", mulendo(True)), ("add", add), ("add_conditionally_incomplete", addc)):
            H[CP + n] = f

        # transcript
        H[RG + "new"] = lambda I, c, a, fr: ok(GTr())

        def absorb(I, c, a, fr):
            r = tr_ref(I, a[0])
            I.store(r, GTr(I.load(r).h + (self.numx(a[2]),)))
            I.st.emit(("absorb",))
            return ok(UNIT)

        def squeeze(I, c, a, fr):
            r = tr_ref(I, a[0])
            h = I.load(r).h
            if h not in self.hist:
                self.hist.append(h)
            n = self.hist.index(h)
            I.store(r, GTr(h + ("squeeze",)))
            I.st.emit(("squeeze", n))
            x = P(T("squeeze", n))
            return ok(mks(I, NUM, value=self.opt(x), var=T("var", "sem", x)))
        H[RG + "absorb"] = absorb
        H[RG + "squeeze"] = squeeze

        ring(I)
        H["fields::Field::from_u128"] = lambda I, c, a, fr: P(I.strip(a[0])) if isinstance(I.strip(a[0]), int) else P(T("fork", I.strip(a[0])))

    def numb(self, b):
        g = G.__new__(G)
        g.I = self.I
        return g.expr_of(b)


from .p_proof import tr_ref


def rec_gens(npay, k):
    return npay * 8 + 2 * (1024 + 128 * (k + 1)) + 12 * 256 + (4 + 2 * k) * 128 + 12


def capture(prog, k, npay, which, fresh=True):
    """the circuit handed to the prover (step / base) or to the verifier"""
    if fresh:
        tm.reset()
    I = Interp(prog)
    n = rec_gens(npay, k)
    p1 = widen(I, params(I, k, "G"), "G", n)
    p2 = widen(I, params(I, k, "H"), "H", n)
    ca = Calls(I, k, k)
    base = [i % 3 != 1 for i in range(8 * npay)]

    def ddummy(I, c, a, fr):
        return abstract_deferred(I, I.resolve(a[0]), "dummyd_")[0]

    def ldummy(I, c, a, fr):
        pr = I.strip(a[0])
        return abstract_leftovers(I, field(I, pr, "k"), "dummy%s_" % ("1" if same(I, pr, p1) else "2"))[0]
    I.hooks[PR + "Deferred::<F>::dummy"] = ddummy
    I.hooks[PR + "Leftovers::<C>::dummy"] = ldummy
    inner = Inner(base)
    if which == "verify":
        short_bytes(I)
        rp, f = recproof(I, k, k, "o_", payload_bytes("new", npay))
        okv(I, I.call_key(prog.fn(RP + "::<E1, E2>::verify"), [I.ref(rp), I.ref(p1), I.ref(p2), I.ref(inner)]))
        circ = ca.proof[0][3]
        made = None
    else:
        f = None
        old = NONE
        if which == "step":
            short_bytes(I)
            rp, f = recproof(I, k, k, "o_", payload_bytes("old", npay))
            old = some(I.ref(rp))
        made = okv(I, I.call_key(prog.fn(RP + "::<E1, E2>::create_proof"),
                                 [I.ref(p1), I.ref(p2), old, I.ref(inner), I.slice(payload_bytes("new", npay))]))
        circ = ca.new[0][1]
    for q in (PR + "Leftovers::<C>::to_bytes", PR + "Deferred::<F>::to_bytes"):
        I.hooks.pop(q, None)
    return I, ca, circ, inner, f, p1, p2, made


def synth(prog, k, npay, which, fresh=True):
    I, ca, circ, inner, f, p1, p2, made = capture(prog, k, npay, which, fresh)
    run = Run(I, "verify" if which == "verify" else "prove")
    run.f, run.made, run.ca, run.inner, run.k, run.npay = f, made, ca, inner, k, npay
    for i in range(rec_gens(npay, k)):
        run.known(L.gen("H%d" % i))
    run.known(L.gen("one:E2"))
    n0 = len(I.st.events)
    cs = C.new_cs(I, run.mode)
    impl = [p for p in prog.bykey if p.startswith("<" + I.strip(circ).ty) and p.endswith("::synthesize")]
    if len(impl) != 1:
        raise Imprecise("circuit implementation of " + I.strip(circ).ty)
    r = I.call_key(prog.fn(impl[0]), [I.ref(circ), cs])
    okv(I, r)
    run.events = I.st.events[n0:]
    return run


# ------------------------------------------------------------------ layouts
def lay_left(k):
    return [("sx", 256), ("sy", 256), ("y_new", 128), ("gx", 256), ("gy", 256)] + [("c%d" % i, 128) for i in range(k)]


def lay_def(k):
    return ([(n, 128) for n in ("x", "y_old", "y_cur", "y_new")]
            + [(n, 256) for n in ("ky_opening", "tx_positive_opening", "tx_negative_opening", "sx_cur_opening", "rx_opening", "rxy_opening")]
            + [("co%d" % i, 128) for i in range(k)] + [("gx_old_opening", 256)] + [("cn%d" % i, 128) for i in range(k)]
            + [(n, 256) for n in ("b_x", "b_xy", "b_y_old", "b_y_cur", "b_y_new")])


def left_vals(f):
    k1, k2 = L.ptkey(f["s_new_commitment"]), L.ptkey(f["g_new"])
    d = {"sx": P(T("ptx", k1)), "sy": P(T("pty", k1)), "y_new": f["y_new"], "gx": P(T("ptx", k2)), "gy": P(T("pty", k2))}
    d.update({"c%d" % i: c for i, c in enumerate(f["challenges_sq_packed_new"])})
    return d


def def_vals(f):
    d = {n: f[n] for n in NDEF}
    d.update({"co%d" % i: c for i, c in enumerate(f["challenges_sq_packed_old"])})
    d.update({"cn%d" % i: c for i, c in enumerate(f["challenges_sq_packed_new"])})
    return d


def honest_bits(layout, vals):
    out = []
    for n, w in layout:
        out += [clean(tob(bitof(T("byte", vals[n], i // 8), i % 8))) for i in range(w)]
    return out


def payload_bits(b):
    return [tob(bitof(x, i)) for x in b for i in range(8)]


def clean(b):
    """the abstract commitments of a well-formed proof are not the identity"""
    if b is None or b is TRUE or b is FALSE:
        return b
    m = {v: False for v in bsupport(b) if tm._all[v].op == "ptzero"}
    return brestrict(b, m) if m else b


# ------------------------------------------------------------------ what the recorded constraints say
class Facts:
    """resolves the circuit's unknowns from its gates and linear constraints and collects what is left as facts"""

    def __init__(self, events):
        self.sub = {}
        self.zeros, self.gates, self.allocs, self.honest = [], [], [], {}
        for e in events:
            if e[0] == "zero":
                self.zeros.append(e[1])
            elif e[0] == "mul":
                self.gates.append(tuple(C.xv(v) for v in e[1:4]))
                for i in range(3):
                    if e[4] is not None:
                        self.honest[T("X", e[1 + i]).id] = e[4][i]
            elif e[0] in ("alloc", "input") and T("X", e[1]).op == "X" and e[1].args[0] != "sem":
                self.allocs.append(T("X", e[1]).id)
                self.honest[self.allocs[-1]] = e[2]
            elif e[0] == "branch":
                raise Imprecise("constraints depend on a branch")
        self.free, self.roots, self.nonzero = [], [], []
        self.facts = []
        self.run()

    def val(self, p):
        for _ in range(200):
            m = {a: self.sub[a] for a in p.atoms() if a in self.sub}
            if not m:
                return p
            out = ZERO
            keep = {}
            for k, c in p.m.items():
                if any(a in m for a, _ in k):
                    t = P(1).scale(c)
                    for a, e in k:
                        for _ in range(e):
                            t = vmul(t, m[a]) if a in m else vmul(t, Poly({((a, 1),): 1}))
                    out = out + t
                else:
                    keep[k] = c
            p = Poly(keep) + out
        raise Imprecise("circular definition")

    def unk(self, p):
        return sorted(a for a in p.atoms() if isX(a) and a not in self.done)

    def run(self):
        self.done = set()
        zs = list(self.zeros)
        gs = list(self.gates)
        while zs or gs:
            moved = False
            nz = []
            for z in zs:
                z = self.val(z)
                u = self.unk(z)
                if not u:
                    if not z.is_zero():
                        self.facts.append(("zero", z))
                    moved = True
                elif len(u) == 1 and self.define(z, u[0]):
                    moved = True
                else:
                    nz.append(z)
            zs = nz
            ng = []
            for a, b, c in gs:
                a, b, c = self.val(a), self.val(b), self.val(c)
                ua, ub, uc = self.unk(a), self.unk(b), self.unk(c)
                if not ua and not ub and not uc:
                    self.facts.append(("gate", a, b, c))
                    moved = True
                elif not ua and not ub and len(uc) == 1 and self.define(c - vmul(a, b), uc[0]):
                    moved = True
                else:
                    ng.append((a, b, c))
            gs = ng
            if moved:
                continue
            # identify variables linked by a linear constraint
            hit = False
            for i, z in enumerate(zs):
                u = self.unk(z)
                if len(u) >= 2 and self.define(z, u[-1]):
                    del zs[i]
                    hit = True
                    break
            if hit:
                continue
            for i, (a, b, c) in enumerate(gs):
                ua, ub, uc = self.unk(a), self.unk(b), self.unk(c)
                if uc:
                    continue
                if len(ua) == 1 and not ub and c.is_const() and not c.is_zero():
                    ua, ub, a, b = ub, ua, b, a
                if len(ub) == 1 and not ua and c.is_const() and not c.is_zero() and b == Poly({((ub[0], 1),): 1}):
                    self.sub[ub[0]] = vmul(c, inv0(norm(a)))
                    self.nonzero.append(a)
                    hit = True
                elif len(ua) == 1 and ua == ub and a == b == Poly({((ua[0], 1),): 1}):
                    self.sub[ua[0]] = sqroot(c)
                    self.roots.append(c)
                    hit = True
                if hit:
                    del gs[i]
                    break
            if hit:
                continue
            for a in self.allocs:
                if a not in self.sub and a not in self.done:
                    self.done.add(a)
                    self.free.append(a)
                    hit = True
                    break
            if not hit:
                raise Imprecise("constraints not understood: %s" % (show(zs[0]) if zs else "gate"))

    def define(self, z, a):
        """z = 0 with z linear in the unknown a"""
        c = None
        for k, v in z.m.items():
            if any(x == a for x, _ in k):
                if k != ((a, 1),):
                    return False
                c = v
        if c is None:
            return False
        self.sub[a] = (z - Poly({((a, 1),): c})).scale(-cinv(c))
        return True


def bitpairs(p):
    """bits forced equal by a sum of differences of bits, weighted by distinct powers of two, being zero"""
    pos = {}
    const = ()
    for k, c in p.m.items():
        if k == ():
            x = TRUE
        elif isbit(k):
            x = bvar(tm._all[k[0][0]])
        else:
            return None
        pos.setdefault(abs(c), []).append((c > 0, x))
    out = []
    lo = min(pos)
    for w, xs in pos.items():
        q = w / lo
        if q != int(q) or int(q) & (int(q) - 1) or int(q) >= 1 << 254:
            return None
        if len(xs) == 2 and xs[0][0] != xs[1][0]:
            out.append((xs[0][1], xs[1][1]))
        elif len(xs) == 1 and TRUE not in (xs[0][1],):
            out.append((xs[0][1], FALSE))
        else:
            return None
    if len(pos) > 1 and any(len(x) == 1 for x in pos.values()):
        return None
    return out


class Classes:
    def __init__(self):
        self.p = {}

    def find(self, x):
        while x in self.p:
            x = self.p[x]
        return x

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is not b:
            if a in (TRUE, FALSE):
                a, b = b, a
            self.p[a] = b


# ------------------------------------------------------------------ the in-circuit verifier
def native_gcs(prog, I0, bits):
    """get_challenge_scalar on a packed challenge with the given bits, as the native code computes it"""
    I = Interp(prog)
    ring(I)
    I.hooks["fields::Field::get_lower_128"] = lambda I, c, a, fr: mkbits(bits)
    r = I.strip(I.call_key(prog.fn("util::get_challenge_scalar"), [fe("packed")]))
    I0.analysed |= I.analysed
    return r


class Step:
    """a synthesis resolved into facts about named bits and points, and the facts the protocol asks for"""

    def __init__(self, R, prog, run):
        self.R, self.prog, self.run = R, prog, run
        I = run.I
        k = run.k
        f = run.f
        self.F = F = Facts(run.events)
        self.base = bvar(T("wbit", 0))
        flag = [n for n, b in enumerate(run.wbits) if b is TRUE or b is FALSE]
        if not R.check("flag:single", len(flag) == 1, "%d private bits have a fixed value, expected the base-case flag alone" % len(flag)):
            raise Imprecise("base-case flag")
        self.base = bvar(T("wbit", flag[0]))
        self.baseid = T("wbit", flag[0]).id
        # public inputs
        self.inp = {}
        pos = 8 * run.npay
        self.paybits = [bvar(T("inbit", i)) for i in range(pos)]
        for tag, lay in (("l1", lay_left(k)), ("l2", lay_left(k)), ("d", lay_def(k))):
            d = {}
            for n, w in lay:
                d[n] = [bvar(T("inbit", pos + i)) for i in range(w)]
                pos += w
            self.inp[tag] = d
        self.ninputs = pos
        # private bits, by what the prover puts there
        by = {}
        for n, b in enumerate(run.wbits):
            if n not in flag:
                by.setdefault(clean(b), []).append(n)
        self.dup = [v for v in by.values() if len(v) > 1]
        self.used = set(flag)

        def named(bits):
            out = []
            for b in bits:
                v = by.get(b)
                if not v:
                    raise Imprecise("the circuit has no private bit holding %s" % (show(b),))
                out.append(bvar(T("wbit", v[0])))
                self.used.add(v[0])
            return out

        def fields(lay, vals):
            hb = named(honest_bits(lay, vals))
            d, p = {}, 0
            for n, w in lay:
                d[n] = hb[p:p + w]
                p += w
            return d
        self.old_pay = named(payload_bits(f["payload"]))
        self.old1 = fields(lay_left(k), left_vals(f["oldproof1"]))
        self.oldd = fields(lay_def(k), def_vals(f["deferred"]))
        self.a = [named([tob(bitof(T("byte", a, i // 8), i % 8)) for i in range(256)]) for a in f["proof"]["a"]]
        # witnessed points
        one = L.gen("one:E2")
        pt = {}
        for n, p in enumerate(run.points):
            pt.setdefault(L.ptkey(I.strip(p)), []).append(n)
        self.ptused = set()

        def point(p):
            v = pt.get(L.ptkey(p))
            if not v:
                raise Imprecise("the circuit has no point holding %s" % (p,))
            self.ptused.add(v[0])
            return L.gen(T("w", v[0]))
        self.point = point
        self.one = one
        self.forks = {}
        for a in F.allocs:
            h = F.honest.get(a)
            if isinstance(h, Poly) and len(h.m) == 1:
                (kk, c), = h.m.items()
                if c == 1 and len(kk) == 1 and kk[0][1] == 1 and tm._all[kk[0][0]].op == "fork":
                    self.forks.setdefault(h, []).append(a)
        self.split()
        self.expect()

    # -------------------------------------------------- what the circuit says
    def nobase(self, p):
        return all(a != self.baseid for a in deep(p))

    def split(self):
        """facts by condition: always / unless the base case / only in the base case"""
        self.always, self.unless, self.only, self.odd = [], [], [], []
        bp = b2f(self.base)
        nb = ONE - bp
        for f in self.F.facts:
            if f[0] == "zero":
                z = f[1]
                (self.always if self.nobase(z) else self.odd).append(z)
                continue
            a, b, c = f[1:]
            if c.is_zero() and not (self.nobase(a) and self.nobase(b)):
                for x, y in ((a, b), (b, a)):
                    if self.nobase(x):
                        if y == nb or y == -nb:
                            self.unless.append(x)
                            break
                        if y == bp or y == -bp:
                            self.only.append(x)
                            break
                else:
                    self.odd.append(vmul(a, b))
                continue
            z = vmul(a, b) - c
            (self.always if self.nobase(z) else self.odd).append(z)

    # -------------------------------------------------- what it should say
    def sc(self, bits):
        return sum((b2f(b).scale(1 << i) for i, b in enumerate(bits)), ZERO)

    def ub(self, x):
        return [bvar(T("ubit", x, i)) for i in range(256)]

    def expect(self):
        run, k, f = self.run, self.run.k, self.run.f
        prf, ol = f["proof"], f["oldproof1"]
        one, pt, inp = self.one, self.point, self.inp
        d2, l2, l1 = inp["d"], inp["l2"], inp["l1"]
        # commitment to the old proof's public inputs
        allbits = list(self.old_pay)
        for n, w in lay_left(k):
            allbits += self.old1[n]
        for n, w in lay_left(k):
            allbits += l1[n]
        for n, w in lay_def(k):
            allbits += self.oldd[n]
        kc = L.gen("H1")
        m = dict(kc.m)
        for i, b in enumerate(allbits):
            m[T("gen", "H%d" % (i + 2)).id] = b2f(b)
        kc = big(L.Pt(m))
        self.kcom = kc
        h, self.hist, self.packed = [], [], []

        def pts(*ps):
            for p in ps:
                h.extend(enc(big(p)))

        def challenge():
            n = len(self.hist)
            self.hist.append(tuple(h))
            h.append("squeeze")
            return [bvar(T("ubit", P(T("squeeze", n)), i)) for i in range(127)] + [TRUE]
        P_ = {n: pt(prf[n]) for n in ("r_commitment", "s_cur_commitment", "t_positive_commitment", "t_negative_commitment", "c_commitment",
                                      "s_new_commitment")}
        pts(kc, P_["r_commitment"])
        y_cur = challenge()
        pts(P_["s_cur_commitment"], P_["t_positive_commitment"], P_["t_negative_commitment"])
        x = challenge()
        pts(P_["c_commitment"])
        y_new = challenge()
        pts(P_["s_new_commitment"])
        O = {}
        for n in ("ky_opening", "rx_opening", "rxy_opening", "sx_cur_opening", "tx_positive_opening", "tx_negative_opening", "gx_old_opening"):
            O[n] = one.scale(packbits(d2[n]))
        for n in ("sx_old_opening", "sx_new_opening"):
            O[n] = pt(one.scale(prf[n]))
        pts(*[O[n] for n in ("ky_opening", "rx_opening", "rxy_opening", "sx_old_opening", "sx_cur_opening", "tx_positive_opening",
                             "tx_negative_opening", "sx_new_opening", "gx_old_opening")])
        z = endo(challenge())
        s_old, g_old = pt(ol["s_new_commitment"]), pt(ol["g_new"])
        p, v = P_["r_commitment"], O["rx_opening"]
        for c, w in ((s_old, "sx_old_opening"), (P_["s_cur_commitment"], "sx_cur_opening"), (P_["t_positive_commitment"], "tx_positive_opening"),
                     (P_["t_negative_commitment"], "tx_negative_opening"), (P_["s_new_commitment"], "sx_new_opening"), (g_old, "gx_old_opening")):
            p = p.scale(z) + c
            v = v.scale(z) + O[w]
        c = P_["c_commitment"]
        PP = [p, P_["r_commitment"], c, c + kc.scale(z), c]
        VV = [v, O["rxy_opening"], O["sx_old_opening"], O["sx_cur_opening"] + O["ky_opening"].scale(z), O["sx_new_opening"]]
        for r, rd in enumerate(prf["rounds"]):
            ps = [[pt(rd["L"][j]), pt(rd["R"][j]), pt(one.scale(rd["l"][j])), pt(one.scale(rd["r"][j]))] for j in range(5)]
            for q in ps:
                pts(*q)
            fk = self.forks.get(P(T("fork", T("fork", 0, r)))) or []
            if len(fk) != 1:
                raise Imprecise("fork value of round %d" % r)
            h.append(Poly({((fk[0], 1),): 1}))
            cb = challenge()
            self.packed.append(cb)
            s = endo(cb)
            for j in range(5):
                PP[j] = PP[j] + ps[j][0].scale(s) + ps[j][1].scale(inv0(s))
                VV[j] = VV[j] + ps[j][2].scale(s) + ps[j][3].scale(inv0(s))
        g = pt(prf["g"])
        self.x_unless = []
        bs = ("b_x", "b_xy", "b_y_old", "b_y_cur", "b_y_new")
        for j in range(5):
            sa = packbits(self.a[j])
            for nm, lhs, rhs in (("commitment", PP[j], g.scale(sa)), ("value", VV[j], one.scale(sa).scale(packbits(d2[bs[j]])))):
                for cn, e1, e2 in zip(("x", "y"), enc(big(lhs)), enc(big(rhs))):
                    self.x_unless.append(("%s of opening %d (%s coordinate)" % (nm, j, cn), e1 - e2))
        # equalities of bits
        self.pairs = []

        def eq(nm, a, b):
            assert len(a) == len(b)
            self.pairs += [("%s bit %d" % (nm, i), s, t) for i, (s, t) in enumerate(zip(a, b))]
        for nm, w, d in (("s_old_commitment", s_old, ("sx", "sy")), ("g_old", g_old, ("gx", "gy"))):
            for e, n in zip(enc(w), d):
                eq("%s against the old leftovers (%s)" % (nm, n), self.ub(e), self.old1[n])
        for nm, w, d in (("s_new_commitment", P_["s_new_commitment"], ("sx", "sy")), ("g_new", g, ("gx", "gy"))):
            for e, n in zip(enc(w), d):
                eq("%s against the new leftovers (%s)" % (nm, n), self.ub(e), l2[n])
        eq("y_new against the new leftovers", y_new, l2["y_new"])
        for i in range(k):
            eq("challenge %d against the new leftovers" % i, self.packed[i], l2["c%d" % i])
            eq("challenge %d against the new deferred values" % i, self.packed[i], d2["cn%d" % i])
            eq("old challenge %d against the new deferred values" % i, self.old1["c%d" % i], d2["co%d" % i])
        eq("x against the new deferred values", x, d2["x"])
        eq("y_cur against the new deferred values", y_cur, d2["y_cur"])
        eq("y_new against the new deferred values", y_new, d2["y_new"])
        eq("y_old against the new deferred values", self.old1["y_new"], d2["y_old"])
        # the deferred equations of the old proof
        o = {n: norm(self.sc(b)) for n, b in self.oldd.items()}
        X, Y = o["x"], o["y_cur"]
        xi, yi = inv0(X), inv0(Y)
        n = (1 << k) // 4
        S = sum((X ** (i + n) * Y ** i + X ** (i + n) * yi ** i for i in range(1, n + 1)), ZERO)
        lhs = (o["rx_opening"] * xi ** (3 * n - 1)) * (o["rxy_opening"] * (xi * yi) ** (3 * n - 1) + o["sx_cur_opening"] * xi ** n * Y ** n - S) \
            - o["ky_opening"] * Y ** n
        rhs = o["tx_positive_opening"] * X + o["tx_negative_opening"] * xi ** (4 * n)
        oldc = [sqroot(native_gcs(self.prog, run.I, self.oldd["co%d" % i])) for i in range(k)]
        newc = [sqroot(native_gcs(self.prog, run.I, self.oldd["cn%d" % i])) for i in range(k)]
        self.x_always = [("the circuit equation of the old proof", lhs - rhs), ("gx_old_opening", b_of(X, oldc) - o["gx_old_opening"]),
                         ("b_x", b_of(X, newc) - o["b_x"]), ("b_xy", b_of(X * Y, newc) - o["b_xy"]),
                         ("b_y_old", b_of(o["y_old"], newc) - o["b_y_old"]), ("b_y_cur", b_of(Y, newc) - o["b_y_cur"]),
                         ("b_y_new", b_of(o["y_new"], newc) - o["b_y_new"])]
        self.x_only = [("base payload bit %d" % i, b2f(bvar(T("wbit", 0))) if False else (b2f(b) - (ONE if w else ZERO)))
                       for i, (b, w) in enumerate(zip(self.old_pay, run.inner.base))]

    # -------------------------------------------------- comparison
    def compare(self, missing=True, extra=True):
        """outside the base case: exactly the protocol's equations; missing / extra select what is reported"""
        R, k = self.R, self.run.k
        eqs, cl, pairs = [], Classes(), []
        for z in self.always + self.unless:
            q = bitpairs(unpack_lin(z))
            if q is None:
                eqs.append(z)
            else:
                pairs += q
                for a, b in q:
                    cl.join(a, b)
        xc = Classes()
        for nm, a, b in self.pairs:
            xc.join(a, b)
        want = self.x_always + self.x_unless
        if missing:
            for z, (nm, w) in zip(missing_of(eqs, want), want):
                R.check("equation:" + nm.split(" (")[0], z, "k=%d: the circuit does not check %s" % (k, nm), "the equation is among the circuit's facts")
            for nm, a, b in self.pairs:
                R.check("equal:" + nm.split(" bit ")[0].split(" (")[0], cl.find(a) is cl.find(b), "k=%d: the circuit does not equate %s" % (k, nm),
                        "the equality classes of bits outside the base case")
        if extra:
            ws = {canon(w) for _, w in want}
            ex = [z for z in eqs if canon(z) not in ws]
            R.check("equation:extra", not ex, "k=%d: the circuit imposes an equation the native verifier does not have: %s" % (k, show(ex[0]) if ex else ""))
            bad = [(a, b) for a, b in pairs if xc.find(a) is not xc.find(b)]
            R.check("equal:extra", not bad, "k=%d: the circuit equates %s, which the native verifier does not" % (k, bad[:1]))
        R.floor("bit equalities (k=%d)" % k, len(self.pairs), 256 * 8 + 128 * (4 + 3 * k))

    def transcript(self):
        R, run = self.R, self.run
        R.check("transcript:challenges", len(run.hist) == len(self.hist), "k=%d: %d challenges are squeezed in the circuit, %d in the native verifier"
                % (run.k, len(run.hist), len(self.hist)))
        for n, w in enumerate(self.hist):
            g = tuple(self.F.val(x) if isinstance(x, Poly) else x for x in run.hist[n]) if n < len(run.hist) else ()
            bad = [i for i in range(max(len(g), len(w))) if i >= len(g) or i >= len(w) or g[i] != w[i]]
            R.check("transcript:challenge %d" % min(n, 4), not bad, "k=%d: what is absorbed before challenge %d differs from the native transcript at item %s"
                    % (run.k, n, bad[:1]), "absorbed sequence equals the native verifier's")

    def flag(self):
        """the base-case flag"""
        R = self.R
        R.check("flag:use", not self.odd, "the base-case flag takes part in a constraint that is not (1 - flag) * (...) = 0 or flag * (...) = 0: %s"
                % (show(self.odd[0]) if self.odd else ""))
        want = [("base payload bit %d" % i, b2f(b) - (ONE if w else ZERO)) for i, (b, w) in enumerate(zip(self.old_pay, self.run.inner.base))]
        for z, (nm, w) in zip(missing_of(self.only + self.always, want), want):
            R.check("flag:base payload", z, "the base-case flag does not force %s" % nm, "flag * (payload bit - base payload bit) = 0")
        ws = {canon(w) for _, w in want}
        R.check("flag:extra", all(canon(z) in ws for z in self.only), "the base-case flag forces something else")
        R.floor("payload bits forced by the flag", len(want), 8 * self.run.npay)

    def honest(self):
        """what the prover assigns is what the constraints determine"""
        bad = []
        n = 0
        for a, h in self.F.honest.items():
            if isinstance(h, Poly) and a in self.F.sub:
                n += 1
                v = self.F.val(Poly({((a, 1),): 1}))
                if v != h and canon0(v) != canon0(self.F.val(h)):
                    # a comparison's difference and the flag's complement are zero/one only through the facts
                    bad.append((a, v, h))
        return n, bad


def canon0(z):
    return norm(z)


def canon(z):
    z = unpack_lin(z)
    return monic(z)[0] if not z.is_zero() else z


def missing_of(got, want):
    """for each wanted equation: is it there"""
    gs = {canon(g) for g in got}
    return [canon(w) in gs for _, w in want]


def unpack_lin(p):
    """sums named by norm spelled out where they occur linearly"""
    while True:
        out = ZERO
        hit = False
        for q, c in p.m.items():
            if len(q) == 1 and q[0][1] == 1 and tm._all[q[0][0]].op == "pack":
                out = out + tm._all[q[0][0]].args[0].scale(c)
                hit = True
            else:
                out = out + Poly({q: c})
        p = out
        if not hit:
            break
    return p


_deep = {}


def deep(p):
    """every atom occurring in a polynomial, inside names as well"""
    todo, seen = list(p.atoms()), set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        t = tm._all[a]
        st = list(t.args)
        while st:
            v = st.pop()
            if isinstance(v, Poly):
                todo += list(v.atoms())
            elif isinstance(v, Term):
                todo.append(v.id)
            elif isinstance(v, B):
                todo += list(bsupport(v))
            elif isinstance(v, (tuple, list)):
                st += list(v)
    return seen
# ------------------------------------------------------------------ the checks
def sign_free(S):
    """square roots whose sign the constraints leave to the prover although an equation depends on it"""
    out = []
    for r in S.F.roots:
        s = T("sqrt", norm(r)).id
        for z in S.always + S.unless:
            par = set()
            for q in z.m:
                e = 0
                for a, n in q:
                    t = tm._all[a]
                    if a == s or (t.op == "inv" and deep(Poly({((a, 1),): 1})) >= {s}):
                        e += n
                par.add(e % 2)
            if len(par) == 2:
                out.append(s)
                break
    return out


def new_step(R, prog, k, npay):
    run = synth(prog, k, npay, "step")
    S = Step(R, prog, run)
    R.check("private bits:once", not S.dup, "a private bit of the old proof is allocated twice: %s" % (S.dup[:1],))
    R.check("private bits:known", len(S.used) == len(run.wbits), "%d private bits are none of the old proof's" % (len(run.wbits) - len(S.used)))
    R.analysed |= run.I.analysed
    return run, S


def inputs_step(R, S):
    """the bits the prover's circuit puts on its public inputs"""
    run, k = S.run, S.run.k
    lo, de, fv, lf, df = run.ca.out
    want = payload_bits(payload_bytes("new", run.npay)) + honest_bits(lay_left(k), left_vals(run.f["oldproof2"])) \
        + honest_bits(lay_left(k), left_vals(lf)) + honest_bits(lay_def(k), def_vals(df))
    got = [clean(b) for b in run.inputs]
    bad = [i for i in range(max(len(want), len(got))) if i >= len(want) or i >= len(got) or want[i] is not got[i]]
    R.check("inputs:prover", not bad, "k=%d: public input bit %s of the prover's circuit is not the documented one" % (k, bad[:1]),
            "payload, old leftovers, new leftovers, deferred values, in order")
    R.check("inputs:boolean", all(bvar(T("inbit", i)) in run.checked for i in range(len(run.inputs))), "k=%d: a public input is not constrained to be a bit" % k)
    R.floor("public input bits (k=%d)" % k, len(got), 8 * run.npay + 2 * (1024 + 128 * (k + 1)) + 12 * 256 + (4 + 2 * k) * 128)


def v01_native(R, prog, k1, k2, npay):
    """the public inputs and their commitment built by the native verifier"""
    I, p1, p2 = setup(prog, k1, k2, rec_gens(npay, max(k1, k2)))
    ca = Calls(I, k1, k2)
    rp, f = recproof(I, k1, k2, "o_", payload_bytes("o", npay))
    inner = Agg("<inner>", 0, ())
    okv(I, I.call_key(prog.fn(RP + "::<E1, E2>::verify"), [I.ref(rp), I.ref(p1), I.ref(p2), I.ref(inner)]))
    a = ca.proof[0]
    want = payload_bits(f["payload"]) + honest_bits(lay_left(k1), left_vals(f["oldproof1"])) \
        + honest_bits(lay_left(k2), left_vals(f["oldproof2"])) + honest_bits(lay_def(k2), def_vals(f["deferred"]))
    got = [I.strip(x) for x in I.items(L.as_slice(I, a[4]))]
    z = {v: ZERO for g in got for v in g.atoms() if tm._all[v].op == "ptzero"}
    got = [subst(g, z) if z and any(x in z for x in g.atoms()) else g for g in got]
    wp = [b2f(b) for b in want]
    bad = [i for i in range(max(len(got), len(wp))) if i >= len(got) or i >= len(wp) or got[i] != wp[i]]
    R.check("inputs:verifier", not bad, "k=%d/%d: public input bit %s of the native verifier is not the documented one" % (k1, k2, bad[:1]),
            "payload, old leftovers, new leftovers, deferred values, in order")
    kc = I.strip(I.resolve(a[5]).f[0])
    m = {T("gen", "G1").id: ONE}
    for i, b in enumerate(wp):
        m[T("gen", "G%d" % (i + 2)).id] = b
    km = {g: subst(c, {v: ZERO for v in c.atoms() if tm._all[v].op == "ptzero"}) for g, c in kc.m.items()}
    R.check("inputs:commitment", km == m, "k=%d/%d: the commitment to the public inputs is not the inputs'" % (k1, k2))
    R.floor("native input bits (k=%d/%d)" % (k1, k2), len(got), 5000)
    R.analysed |= I.analysed
    return True


def v01_count(R, prog, k, npay):
    """the verifier's synthesis allocates as many inputs as the prover's"""
    run = synth(prog, k, npay, "verify")
    n = 8 * npay + 2 * (1024 + 128 * (k + 1)) + 12 * 256 + (4 + 2 * k) * 128
    R.check("inputs:count", len(run.inputs) == n, "k=%d: the verifier's circuit has %d public inputs, the native verifier supplies %d" % (k, len(run.inputs), n))
    R.analysed |= run.I.analysed
    return True


def v01_step(R, prog, k, npay):
    run, S = new_step(R, prog, k, npay)
    inputs_step(R, S)
    S.compare(missing=False)
    S.transcript()
    return True


def v02_step(R, prog, k, npay):
    run, S = new_step(R, prog, k, npay)
    I, f = run.I, run.f
    S.compare()
    S.transcript()
    R.check("deferred:b:sign", not sign_free(S), "k=%d: the prover chooses the sign of the square roots of the challenges in the circuit; the native verifier "
            "uses one fixed root, so negated values of b and of gx_old_opening pass in the circuit" % k)
    n, bad = S.honest()
    facts = {canon(z) for z in S.always + S.unless}
    bad = [(a, v, h) for a, v, h in bad if canon(v - S.F.val(h)) not in facts]
    R.check("honest", not bad, "k=%d: the prover assigns %s where the constraints force another value" % (k, tm._all[bad[0][0]] if bad else ""),
            "assigned values equal the values the constraints determine")
    R.floor("assigned values (k=%d)" % k, n, 1000)
    # the inner circuit
    R.check("inner:once", len(run.inner.calls) == 1, "the inner circuit is synthesised %d times" % len(run.inner.calls))
    old, new = run.inner.calls[0]
    R.check("inner:old", [run.bitx(b) for b in old] == S.old_pay, "the inner circuit is not given the old proof's payload")
    R.check("inner:new", [run.bitx(b) for b in new] == S.paybits, "the inner circuit is not given the new payload")
    # values handed on
    lo, de, fv, lf, df = run.ca.out
    m = I.strip(run.made)
    for nm, got, want in (("proof", "proof", run.ca.made), ("old leftovers", "oldproof1", f["_oldproof2"]), ("new leftovers", "oldproof2", lo),
                          ("deferred values", "deferred", de)):
        R.check("made:" + nm, same(I, field(I, m, got), want), "the proof created carries other %s than the ones it was made with" % nm)
    R.check("made:payload", [I.strip(x) for x in I.items(L.as_slice(I, field(I, m, "payload")))] == payload_bytes("new", run.npay),
            "the proof created carries another payload")
    R.check("made:leftovers used", same(I, run.ca.new[0][2], f["_oldproof2"]), "the outer proof is created with other leftovers than it states")
    return True


def shape_case(R, prog, k, npay):
    """prover in a step, prover in the base case and verifier synthesise one circuit"""
    runs = {}
    first = True
    for w in ("step", "verify", "base"):
        runs[w] = synth(prog, k, npay, w, first)
        first = False
        R.analysed |= runs[w].I.analysed
    a = C.shape(runs["step"].events)
    for w in ("verify", "base"):
        b = C.shape(runs[w].events)
        bad = [i for i in range(max(len(a), len(b))) if i >= len(a) or i >= len(b) or a[i] != b[i]]
        R.check("shape:" + w, not bad, "the circuit differs between a step's proof and %s at item %s: %s / %s" % (
            "the base case" if w == "base" else "verification", bad[:1], show(a[bad[0]]) if bad and bad[0] < len(a) else "",
            show(b[bad[0]]) if bad and bad[0] < len(b) else ""), "event sequences without values are equal")
        R.check("shape:challenges:" + w, runs[w].hist == runs["step"].hist, "the transcript differs between a step's proof and " + w)
    R.floor("circuit events compared", len(a), 20000)
    # base case
    b = runs["base"]
    flag = [i for i, v in enumerate(b.wbits) if v is TRUE and runs["step"].wbits[i] is FALSE]
    R.check("base:flag", len(flag) == 1, "the base-case flag is not set exactly in the base case")
    want = payload_bits(payload_bytes("new", npay))
    R.check("base:inputs", [clean(x) for x in b.inputs[:8 * npay]] == want, "the base case's payload bits are not the payload's")
    if flag:
        o = flag[0] + 1
        R.check("base:payload", [tob(x) for x in b.wbits[o:o + 8 * npay]] == [TRUE if x else FALSE for x in b.inner.base],
                "the base case does not start from the base payload")
    return True


def v03_step(R, prog, k, npay):
    run, S = new_step(R, prog, k, npay)
    S.flag()
    S.compare(extra=False)
    return True


def v03_dummy(R, prog, k):
    """the starting values of the base case satisfy the equations that stay on"""
    tm.reset()
    I = Interp(prog)
    from .p_proof import tr_hooks
    tr_hooks(I)
    d = I.strip(I.call_key(prog.fn(PR + "Deferred::<F>::dummy"), [k]))
    r = tob(I.resolve(I.call_key(prog.fn(PR + "Deferred::<F>::verify"), [I.ref(d), k])))
    R.check("dummy:deferred", r is TRUE, "k=%d: the deferred values of the base case do not verify" % k)
    R.analysed |= I.analysed
    return True


RECASS = ["sizes (log2 of the generator count), payload lengths and base payloads analysed stand for all; both curves use the same size",
          "curve gadgets return the group-law result (G06), the sponge gadget is the native sponge (G05), unpacking yields the bits of the number (G02)",
          "the outcome of Proof::verify is an opaque tuple (P01-P03)", "points witnessed by the honest prover are independent"]


def check_v01(R, prog):
    R.notes["explanation"] = (
        "The native verifier is interpreted on a proof of independent symbols and the bits it supplies (and their commitment) compared with the "
        "documented layout. The recursive circuit is synthesised abstractly; its public inputs and private copies of the old proof are named by "
        "position and by the value the prover assigns; its recorded constraints are resolved to equations over those names, and every equation, "
        "equality and transcript entry must use whole fields of the layout in the protocol's roles.")
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    jobs = [("step", v01_step, R, prog, k, n) for k, n in [(4, 1), (3, 2)] + ([(5, 3)] if thorough else [])]
    jobs += [("count", v01_count, R, prog, k, n) for k, n in ((4, 0), (2, 3))]
    jobs += [("native", v01_native, R, prog, a, b, n) for a, b, n in [(3, 4, 2), (4, 3, 1), (2, 2, 0)] + ([(6, 5, 5)] if thorough else [])]
    rs = R.parallel(jobs)
    R.floor("layouts analysed", sum(rs), len(jobs))
    R.assumptions += RECASS


def check_v02(R, prog):
    R.notes["explanation"] = (
        "The recursive circuit is synthesised abstractly by the real code (curve, sponge and bit gadgets summarised). Its gates and linear constraints "
        "are resolved by substitution into a set of equations over named bits and points; outside the base case that set must equal the native "
        "verifier's equations, written independently from the protocol, in both directions, and the in-circuit transcript must be the native one. "
        "The prover's assigned values must be the ones the constraints determine, and the circuit must have the same shape for the prover, the "
        "verifier and the base case.")
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    jobs = [("shape", shape_case, R, prog, 3, 1)]
    jobs += [("step", v02_step, R, prog, k, n) for k, n in [(4, 1), (3, 2)] + ([(5, 0)] if thorough else [])]
    # the native verifier the circuit is compared with is the protocol's
    jobs += [("native", pp.p02_proof, R, prog, 3, (0, 1, 0), True), ("native", pp.p02_deferred, R, prog, 3),
             ("native", pp.p02_leftovers, R, prog, 3)]
    rs = R.parallel(jobs)
    R.floor("circuits analysed", sum(rs), len(jobs))
    R.assumptions += RECASS


def check_v03(R, prog):
    R.notes["explanation"] = (
        "In the equations resolved from the recursive circuit's constraints the base-case flag may occur only as the factor (1 - flag) of a checked "
        "difference or as the factor flag of (payload bit - base payload bit); the remaining equations must contain every check of the protocol, so "
        "that with the flag off each one holds, and with the flag on the old payload is the base payload. The starting values of the base case "
        "satisfy the unconditional equations.")
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    jobs = [("shape", shape_case, R, prog, 3, 1)]
    jobs += [("step", v03_step, R, prog, k, n) for k, n in [(4, 1), (3, 2)] + ([(5, 0)] if thorough else [])]
    jobs += [("dummy", v03_dummy, R, prog, k) for k in (2, 3, 4)]
    rs = R.parallel(jobs)
    R.floor("circuits analysed", sum(rs), len(jobs))
    R.assumptions += RECASS
