"""Proving system: circuit polynomial (P04), transcript (P01), verification equations (P02), honest proofs (P03).

Scalars are polynomials over symbolic values, commitments linear combinations of independent generators, the transcript an abstract
sponge remembering the sequence of absorbed values.  The circuit is given through the synthesis driver's interface with a symbolic
coefficient for every variable in every constraint."""
import os
from .gad import *
from . import terms as tm
from . import lib as L
from . import interp as ip
from .intdom import bitof, mkbits
from .p_core import tcall, mkvar, BACK

PR = "proofs::"
SYN = "synthesis::SynthesisDriver::synthesize"


def params(I, k, tag="G"):
    d = 1 << k
    gens = [L.gen("%s%d" % (tag, i)) for i in range(d)]
    return mks(I, PR + "Params", g=L.gen("base" + tag), d=d, n=d // 4, k=k, generators=I.vec(gens),
               generators_xy=I.vec([tup(P(T("gx", tag, i)), P(T("gy", tag, i))) for i in range(d)]))


class Spec:
    """a circuit of n gates and q linear constraints, all coefficients symbolic; inputs: constraint indices tied to public inputs"""

    def __init__(self, n, q, inputs=(), values=None, order="gates"):
        self.n, self.q, self.inputs, self.order = n, q, list(inputs), order
        self.values = values

    def coeff(self, kind, i, q):
        return fe("%s_%d_%d" % ({"A": "u", "B": "v", "C": "w"}[kind], i, q))

    def val(self, kind, i):
        return fe("%s%d" % (kind.lower(), i))

    def s(self, x, xi, y, n):
        """the circuit polynomial at (x, y) as the constraint system defines it; xi = 1/x"""
        acc = ZERO
        for q in range(1, self.q + 1):
            t = ZERO
            for i in range(1, self.n + 1):
                t = t + self.coeff("A", i, q) * xi ** i + self.coeff("B", i, q) * x ** i + self.coeff("C", i, q) * x ** (i + n)
            acc = acc + t * y ** q
        return acc

    def drive(self, I, backend, fork=None):
        b = I.ref(backend)
        ann = PyFn(lambda I, a: "")

        def gates(lo, hi):
            for i in range(lo, hi):
                tcall(I, BACK, "new_multiplication_gate", [b, NONE if i % 2 else some(ann)])
                for kd in "ABC":
                    r = tcall(I, BACK, "set_var", [b, NONE, mkvar(I, kd, i), PyFn(lambda I, a, kd=kd, i=i: ok(self.val(kd, i)))])
                    okr(I, r)
        first = self.n if self.order == "gates" else (self.n + 1) // 2
        gates(1, first + 1)
        done = first
        for q in range(1, self.q + 1):
            if q > 1 and done < self.n:
                gates(done + 1, self.n + 1)
                done = self.n
            y = tcall(I, BACK, "new_linear_constraint", [b, ann])
            if q % 2 == 0:
                # an index recomputed from the constraint's number stands for the same constraint
                y = tcall(I, BACK, "get_for_q", [b, q])
            for i in range(1, done + 1):
                for kd in "ABC":
                    tcall(I, BACK, "insert_coefficient", [b, mkvar(I, kd, i), mke(I, COEFF, "Full", self.coeff(kd, i, q)), I.ref(y)])
            if done < self.n:
                gates(done + 1, self.n + 1)
                done = self.n
                for i in range(first + 1, done + 1):
                    for kd in "ABC":
                        tcall(I, BACK, "insert_coefficient", [b, mkvar(I, kd, i), mke(I, COEFF, "Full", self.coeff(kd, i, q)), I.ref(y)])
            if q in self.inputs:
                v = NONE
                if self.values is not None:
                    v = some(self.values[self.inputs.index(q)])
                okr(I, tcall(I, BACK, "new_k_power", [b, q, v]))
        return ok(UNIT)


def okr(I, r):
    r = I.resolve(r)
    if isinstance(r, Agg) and r.ty == RES and r.var == 0:
        return r
    raise Imprecise("backend returned %r" % (r,))


def setup(prog, spec):
    I = Interp(prog)
    I.hooks[SYN] = lambda I, c, a, fr: spec.drive(I, a[0])
    I.hooks["ring.powall"] = power
    return I


def power(x, n):
    return x ** n if len(x.m) <= 1 or n < 6 else P(T("pow", x, n))


def panics(I):
    return [x for x in I.panics if x[0] is not FALSE]


def okv(I, r):
    r = I.resolve(r)
    if not (isinstance(r, Agg) and r.ty == RES and r.var == 0):
        raise Imprecise("did not return Ok: %r" % (r,))
    return I.resolve(r.f[0])


def show(p):
    s = repr(p)
    return s if len(s) < 300 else s[:300] + "..."


# ------------------------------------------------------------------ P04
def p04_case(R, prog, k, N, Q, order):
    tm.reset()
    spec = Spec(N, Q, inputs=[1], values=[ONE], order=order)
    n = (1 << k) // 4
    key = "k=%d,gates=%d,constraints=%d,%s" % (k, N, Q, order)
    x, y = fe("x"), fe("y")
    xi = inv0(x)
    I = setup(prog, spec)
    I.st.pc = band(I.st.pc, bnot(iszero(x)))
    circ = Agg("<circuit>", 0, ())
    pr = params(I, k)
    sx = okv(I, I.call_key(prog.fn(PR + "Params::<C>::compute_sx"), [I.ref(pr), I.ref(circ), y]))
    sx = [I.resolve(v) for v in I.items(L.as_slice(I, sx))]
    R.check("sx:length", len(sx) == 3 * n + 1, "%d coefficients" % len(sx))
    # coefficient of X^(i-n)
    for i, c in enumerate(sx):
        e = i - n
        want = ZERO
        for q in range(1, Q + 1):
            if -N <= e < 0:
                want = want + spec.coeff("A", -e, q) * y ** q
            if 1 <= e <= N:
                want = want + spec.coeff("B", e, q) * y ** q
            if 1 <= e - n <= N:
                want = want + spec.coeff("C", e - n, q) * y ** q
        R.check("sx:coefficient", (c - want).is_zero(), "%s: coefficient of X^%d is %s" % (key, e, show(c)))
    sy = okv(I, I.call_key(prog.fn(PR + "Params::<C>::compute_sy"), [I.ref(pr), I.ref(circ), x, n, Q]))
    sy = [I.resolve(v) for v in I.items(L.as_slice(I, sy))]
    R.check("sy:length", len(sy) == Q + 1, "%s: %d coefficients" % (key, len(sy)))
    for q, c in enumerate(sy):
        want = ZERO
        if q:
            for i in range(1, N + 1):
                want = want + spec.coeff("A", i, q) * xi ** i + spec.coeff("B", i, q) * x ** i + spec.coeff("C", i, q) * x ** (i + n)
        R.check("sy:coefficient", under(c - want, I.st.pc).is_zero(), "%s: coefficient of Y^%d is %s" % (key, q, show(c)))
    # openings of both representations agree with the definition
    op = prog.fn(PR + "Params::<C>::compute_opening")
    vx = I.strip(I.call_key(op, [I.ref(pr), I.slice(sx), x, False]))
    vy = I.strip(I.call_key(op, [I.ref(pr), I.slice(sy), y, False]))
    want = spec.s(x, xi, y, n)
    R.check("agree:X", under(vx * xi ** n - want, I.st.pc).is_zero(), "%s: opening of s(X, y) at x, shifted by x^-n, is not s(x, y)" % key,
            "difference is zero in normal form")
    R.check("agree:Y", under(vy - want, I.st.pc).is_zero(), "%s: opening of s(x, Y) at y is not s(x, y)" % key)
    pan = panics(I)
    pan = [p for p in pan if band(p[0], bnot(iszero(x))) is not FALSE]
    R.check("panics", not pan, "%s: may panic: %s" % (key, pan[:2]))
    R.analysed |= I.analysed
    return True


def p04_opening(R, prog):
    """evaluation of a coefficient vector, with and without the shift to the last positions"""
    for k, ln in ((2, 0), (2, 1), (2, 3), (2, 4), (3, 5), (4, 13)):
        for edge in (False, True):
            tm.reset()
            I = Interp(prog)
            I.hooks["ring.powall"] = power
            pr = params(I, k)
            x = fe("x")
            v = [fe("v%d" % i) for i in range(ln)]
            r = I.strip(I.call_key(prog.fn(PR + "Params::<C>::compute_opening"), [I.ref(pr), I.slice(v), x, edge]))
            off = (1 << k) - ln if edge else 0
            want = sum((c * x ** (i + off) for i, c in enumerate(v)), ZERO)
            R.check("compute_opening:len=%d,right_edge=%s" % (ln, edge), (r - want).is_zero(), show(r))
            I.hooks["util::multiexp"] = multiexp
            c = I.strip(I.call_key(prog.fn(PR + "Params::<C>::commit"), [I.ref(pr), I.slice(v), edge]))
            want = L.Pt({})
            for i, a in enumerate(v):
                want = want + L.gen("G%d" % (i + off)).scale(a)
            R.check("commit:len=%d,right_edge=%s" % (ln, edge), c == want, show(c))
            R.analysed |= I.analysed
    return True


def multiexp(I, c, args, fr):
    """sum of coefficient * point (U01 decides that util::multiexp is that, and refuses different lengths)"""
    co = [I.strip(v) for v in I.items(L.as_slice(I, args[0]))]
    ge = [I.strip(v) for v in I.items(L.as_slice(I, args[1]))]
    if len(co) != len(ge):
        raise Diverge("multiexp lengths")
    r = L.Pt({})
    for a, g in zip(co, ge):
        r = r + g.scale(a)
    return r


def check_p04(R, prog):
    R.notes["explanation"] = (
        "compute_sx, compute_sy, compute_opening and commit are interpreted with symbolic evaluation points, for circuits given through the "
        "backend interface with an independent symbolic coefficient for every variable in every constraint, so each size analysed stands for "
        "every circuit of that size; every coefficient and both evaluations are compared with the defining double sum in normal form.")
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    sizes = [(4, 0, 1), (4, 1, 1), (4, 3, 2), (4, 3, 4), (4, 4, 3), (5, 5, 3)] + ([(5, 8, 6), (6, 9, 5)] if thorough else [])
    jobs = [("case", p04_case, R, prog, k, N, Q, o) for k, N, Q in sizes for o in ("gates", "mixed")]
    rs = R.parallel(jobs + [("opening", p04_opening, R, prog)])
    R.floor("circuit sizes", sum(rs[:-1]), len(jobs))
    R.assumptions += ["circuits up to the analysed sizes stand for all sizes", "multiexp is a linear combination (U01)"]


# ------------------------------------------------------------------ transcript
class Tr:
    """abstract sponge: everything it has seen; equal histories squeeze equal elements"""
    adt = "rescue::Rescue"
    __slots__ = ("h",)

    def __init__(self, h=()):
        self.h = h

    def __hash__(self):
        return hash(self.h)

    def __eq__(self, o):
        return isinstance(o, Tr) and self.h == o.h

    def __repr__(self):
        return "Tr(%d)" % len(self.h)

    def join(self, I, c, o):
        if isinstance(o, Tr) and len(o.h) == len(self.h):
            return Tr(tuple(a if a is b or a == b else joined(I, c, a, b) for a, b in zip(self.h, o.h)))
        raise Imprecise("the number of absorbed values depends on a branch")

    def method(self, I, c, m, tr, args, fr):
        if m == "clone" and tr == "std::clone::Clone":
            return self
        return NotImplemented


def joined(I, c, a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return I.ite(c, a, b)
    raise Imprecise("absorbing and squeezing in different branches")


class Squeezes:
    """all histories at which the sponge was squeezed, in the order of their first use"""

    def __init__(self):
        self.h = []

    def index(self, h):
        if h not in self.h:
            self.h.append(h)
        return self.h.index(h)


def tr_ref(I, r):
    while isinstance(I.load(r), Ref):
        r = I.load(r)
    return r


def tr_hooks(I, forks=None):
    sq = I.sq = Squeezes()
    I.gcs = []

    def absorb(I, c, a, fr):
        r = tr_ref(I, a[0])
        v = I.strip(a[1])
        if not isinstance(v, Poly):
            raise Imprecise("absorbs %r" % (v,))
        I.store(r, Tr(I.load(r).h + (v,)))
        return UNIT

    def squeeze(I, c, a, fr):
        r = tr_ref(I, a[0])
        h = I.load(r).h
        n = sq.index(h)
        I.store(r, Tr(h + ("squeeze",)))
        return P(T("squeeze", n))

    def lower(I, c, a, fr):
        return T("lower128", I.strip(a[0]))

    def from_u128(I, c, a, fr):
        v = I.strip(a[0])
        return P(v) if isinstance(v, int) else chalatom(mkbits([bitof(v, i) for i in range(128)]))

    def gcs(I, c, a, fr):
        return gcsatom(I.strip(a[0]))

    def sqrt(I, x):
        return Agg(L.CTO, 0, (root(x), TRUE if is_square(I, x) else FALSE))

    def is_square(I, x):
        """which fork value makes the challenge of a round a square is chosen by the configuration"""
        n = squeeze_of(x)
        if n is None or forks is None:
            return True
        h = sq.h[n]
        rnd = sum(1 for e in h if e == "squeeze") - I.before
        if rnd < 0:
            return True
        f = h[-1]
        return isinstance(f, Poly) and f == P(forks[rnd])
    I.before = 1 << 30
    I.hooks["rescue::Rescue::<F>::new"] = lambda I, c, a, fr: Tr()
    I.hooks["rescue::Rescue::<F>::absorb"] = absorb
    I.hooks["rescue::Rescue::<F>::squeeze"] = squeeze
    I.hooks["fields::Field::get_lower_128"] = lower
    I.hooks["fields::Field::from_u128"] = from_u128
    I.hooks["util::get_challenge_scalar"] = gcs
    I.hooks["ring.sqrt"] = sqrt
    I.hooks["ring.powall"] = power
    I.hooks["util::multiexp"] = multiexp
    return I


def chalatom(w):
    t = T("u128", w)
    tm.NONZERO.add(t.id)
    return P(t)


def gcsatom(x):
    """a challenge scalar, represented by its (formal) square root"""
    t = T("rgcs", x)
    tm.NONZERO.add(t.id)
    return P(t) * P(t)


def squeeze_of(x):
    """squeeze number a challenge is derived from"""
    todo = [x]
    seen = set()
    while todo:
        v = todo.pop()
        if isinstance(v, Poly):
            for a in v.atoms():
                if a not in seen:
                    seen.add(a)
                    todo.append(tm._all[a])
        elif isinstance(v, Term):
            if v.op == "squeeze":
                return v.args[0]
            todo += list(v.args)
        elif isinstance(v, (tuple, list)):
            todo += list(v)
        elif isinstance(v, B):
            if v.v is not None:
                todo += [tm._all[v.v], v.lo, v.hi]
    return None


def challenge(n):
    """the value of a challenge squeezed n-th: low 127 bits with bit 127 set"""
    w = T("lower128", P(T("squeeze", n)))
    return chalatom(mkbits([bitof(w, i) for i in range(127)] + [TRUE]))


# ------------------------------------------------------------------ P02
ROUND = PR + "InnerProductRound"


def abstract_proof(I, k, tag=""):
    """a proof with independent contents; returns the value and its fields"""
    f = {}
    for n in ("r_commitment", "s_cur_commitment", "t_positive_commitment", "t_negative_commitment", "c_commitment", "s_new_commitment"):
        f[n] = L.gen(tag + n)
    for n in ("rx_opening", "rxy_opening", "sx_old_opening", "sx_cur_opening", "tx_positive_opening", "tx_negative_opening",
              "sx_new_opening"):
        f[n] = fe(tag + n)
    rounds = []
    f["rounds"] = []
    for i in range(k):
        r = {"L": [L.gen("%sL%d_%d" % (tag, i, j)) for j in range(5)], "R": [L.gen("%sR%d_%d" % (tag, i, j)) for j in range(5)],
             "l": [fe("%sl%d_%d" % (tag, i, j)) for j in range(5)], "r": [fe("%sr%d_%d" % (tag, i, j)) for j in range(5)]}
        f["rounds"].append(r)
        rounds.append(mks(I, ROUND, **{a: I.vec(b) for a, b in r.items()}))
    f["a"] = [fe("%sa_%d" % (tag, j)) for j in range(5)]
    f["g"] = L.gen(tag + "g_final")
    ip_ = mks(I, PR + "MultiPolynomialOpening", rounds=I.vec(rounds), a=I.vec(f["a"]), g=f["g"])
    v = mks(I, PR + "Proof", inner_product=ip_, **{a: b for a, b in f.items() if a not in ("rounds", "a", "g")})
    return v, f


def abstract_leftovers(I, k, tag):
    f = {"s_new_commitment": L.gen(tag + "s"), "y_new": fe(tag + "y"), "g_new": L.gen(tag + "g"),
         "challenges_sq_packed_new": [fe("%sc%d" % (tag, i)) for i in range(k)]}
    tm.NONZERO.add(T("sym", tag + "y").id)
    v = mks(I, PR + "Leftovers", **{a: I.vec(b) if isinstance(b, list) else b for a, b in f.items()})
    return v, f


def enc(p):
    """what a point contributes to the transcript"""
    z = b2f(bnot(L.pt_iszero(p)))
    k = L.ptkey(p)
    return [z * P(T("ptx", k)), z * P(T("pty", k))]


def root(c):
    if len(c.m) == 1:
        (k, v), = c.m.items()
        if v == 1 and len(k) == 1 and k[0][1] == 2 and tm._all[k[0][0]].op == "rgcs":
            return Poly({((k[0][0], 1),): 1})
    if c.is_const():
        return P(T("sqrtc", c))
    s = T("sqrt", c)
    if s.id not in tm.SQRTOF:
        tm.SQRTOF[s.id] = c
        tm.NONZERO.add(s.id)
    return P(s)


def b_of(x, cs):
    """product over the rounds, last challenge first: (1/c + c x^(2^i))"""
    r = ONE
    for c in reversed(cs):
        r = r * (inv0(c) + c * x)
        x = x * x
    return r


class Expect:
    """the protocol, written from its description: transcript, challenges, equations, handed-on values"""

    def __init__(self, prf, old, kcom, ky, k, forks, one):
        self.hist = []
        h = []

        def pts(*ps):
            for p in ps:
                h.extend(enc(p))

        def sc(*ss):
            for s in ss:
                pts(one.scale(s))

        def sqz():
            self.hist.append(tuple(h))
            h.append("squeeze")
            return len(self.hist) - 1
        n = 0
        pts(kcom, prf["r_commitment"])
        y_cur = challenge(sqz())
        pts(prf["s_cur_commitment"], prf["t_positive_commitment"], prf["t_negative_commitment"])
        x = challenge(sqz())
        pts(prf["c_commitment"])
        y_new = challenge(sqz())
        pts(prf["s_new_commitment"])
        kyo = sum((c * y_cur ** i for i, c in enumerate(ky)), ZERO)
        oldc = [root(gcsatom(c)) for c in old["challenges_sq_packed_new"]]
        gxo = b_of(x, oldc)
        o = prf
        sc(kyo, o["rx_opening"], o["rxy_opening"], o["sx_old_opening"], o["sx_cur_opening"], o["tx_positive_opening"],
           o["tx_negative_opening"], o["sx_new_opening"], gxo)
        z = gcsatom(challenge(sqz()))
        p = prf["r_commitment"]
        v = o["rx_opening"]
        for c, w in ((old["s_new_commitment"], o["sx_old_opening"]), (prf["s_cur_commitment"], o["sx_cur_opening"]),
                     (prf["t_positive_commitment"], o["tx_positive_opening"]), (prf["t_negative_commitment"], o["tx_negative_opening"]),
                     (prf["s_new_commitment"], o["sx_new_opening"]), (old["g_new"], gxo)):
            p = p.scale(z) + c
            v = v * z + w
        self.inst = [(p, v, x), (prf["r_commitment"], o["rxy_opening"], x * y_cur), (prf["c_commitment"], o["sx_old_opening"], old["y_new"]),
                     (prf["c_commitment"] + kcom.scale(z), o["sx_cur_opening"] + kyo * z, y_cur),
                     (prf["c_commitment"], o["sx_new_opening"], y_new)]
        self.edges = [False, True, False, False, False]
        P_ = [i[0] for i in self.inst]
        V_ = [i[1] for i in self.inst]
        self.packed, cs = [], []
        for r, rd in enumerate(prf["rounds"]):
            for j in range(5):
                pts(rd["L"][j], rd["R"][j])
                sc(rd["l"][j], rd["r"][j])
            for f in range(forks[r] + 1):
                self.hist.append(tuple(h) + (P(f),))
            m = len(self.hist) - 1
            h.append(P(forks[r]))
            h.append("squeeze")
            pk = challenge(m)
            c = root(gcsatom(pk))
            self.packed.append(pk)
            cs.append(c)
            sq, isq = c * c, inv0(c) * inv0(c)
            for j in range(5):
                P_[j] = P_[j] + rd["L"][j].scale(sq) + rd["R"][j].scale(isq)
                V_[j] = V_[j] + rd["l"][j] * sq + rd["r"][j] * isq
        self.ok = TRUE
        self.eqs = []
        for j in range(5):
            e1 = L.pt_eq(P_[j], prf["g"].scale(prf["a"][j]))
            e2 = iszero(V_[j] - prf["a"][j] * b_of(self.inst[j][2], cs))
            self.eqs += [("commitment of opening %d" % j, e1), ("value of opening %d" % j, e2)]
            self.ok = band(self.ok, band(e1, e2))
        self.leftovers = {"s_new_commitment": prf["s_new_commitment"], "y_new": y_new, "g_new": prf["g"],
                          "challenges_sq_packed_new": self.packed}
        self.deferred = {"x": x, "y_old": old["y_new"], "y_cur": y_cur, "y_new": y_new, "ky_opening": kyo,
                         "tx_positive_opening": o["tx_positive_opening"], "tx_negative_opening": o["tx_negative_opening"],
                         "sx_cur_opening": o["sx_cur_opening"], "rx_opening": o["rx_opening"], "rxy_opening": o["rxy_opening"],
                         "challenges_sq_packed_old": old["challenges_sq_packed_new"], "gx_old_opening": gxo,
                         "challenges_sq_packed_new": self.packed, "b_x": b_of(x, cs), "b_xy": b_of(x * y_cur, cs),
                         "b_y_old": b_of(old["y_new"], cs), "b_y_cur": b_of(y_cur, cs), "b_y_new": b_of(y_new, cs)}


def struct_eq(R, I, key, v, want, what):
    v = I.strip(v)
    names = [f[0] for f in typeinfo(I.p, v.ty)["v"][0]["f"]]
    R.check(key + ":fields", sorted(n for n in names) == sorted(want), "%s has fields %s" % (what, names))
    for n in names:
        if n not in want:
            continue
        x = field(I, v, n)
        w = want[n]
        if isinstance(w, list):
            x = [I.strip(e) for e in I.items(L.as_slice(I, x))]
            good = x == w
        else:
            x = I.strip(x)
            good = x == w
        R.check(key + ":" + n, good, "%s.%s is %s" % (what, n, show(x)))


def run_verify(prog, k, forks, given, at=(3,)):
    """at: the constraints that hold the public inputs after the constant one"""
    tm.reset()
    spec = Spec(1, max((3,) + at), inputs=[1] + list(at))
    I = setup(prog, spec)
    tr_hooks(I, forks)
    I.before = 4
    pr = params(I, k)
    prf, f = abstract_proof(I, k)
    lo, old = abstract_leftovers(I, k, "old_")
    inp = [fe("in%d" % (i + 1)) for i in range(len(at))]
    ky = [ZERO, ONE] + [ZERO] * (max((1,) + at) - 1)
    for q, v in zip(at, inp):
        ky[q] = v
    kcom = L.gen("K") if given else sum_pts(L.gen("G%d" % i).scale(c) for i, c in enumerate(ky))
    one = L.gen("one:C")
    r = I.call_key(prog.fn(PR + "Proof::<C>::verify"),
                   [I.ref(prf), I.ref(lo), I.ref(pr), I.ref(Agg("<circuit>", 0, ())), I.slice(inp), some(kcom) if given else NONE])
    r = okv(I, r)
    e = Expect(f, old, kcom, ky, k, forks, one)
    return I, r, e


def sum_pts(it):
    r = L.Pt({})
    for p in it:
        r = r + p
    return r


def p02_proof(R, prog, k, forks, given, at=(3,)):
    I, r, e = run_verify(prog, k, forks, given, at)
    key = "Proof::verify(k=%d,forks=%s,%d inputs,%s)" % (k, forks, len(at), "k given" if given else "k computed")
    R.check("proof:challenges", [h for h in I.sq.h] == e.hist, key + ": challenges are not derived as described (see P01)")
    okb = tob(I.resolve(r.f[0]))
    for n, q in e.eqs:
        R.check("proof:checks", band(okb, bnot(q)) is FALSE, "%s accepts although the equation for the %s fails" % (key, n),
                "acceptance implies every equation")
    R.check("proof:accepts", okb is e.ok, "%s: acceptance is not the conjunction of the protocol's equations" % key)
    struct_eq(R, I, "proof:leftovers", r.f[1], e.leftovers, key + " leftovers")
    struct_eq(R, I, "proof:deferred", r.f[2], e.deferred, key + " deferred")
    fv = [I.resolve(v) for v in I.items(L.as_slice(I, r.f[3]))]
    R.check("proof:forkvalues", fv == list(forks), "%s returns fork values %s" % (key, fv))
    R.analysed |= I.analysed
    return True


def p02_deferred(R, prog, k):
    """Deferred::verify accepts exactly when every deferred equation holds"""
    names = ("x", "y_old", "y_cur", "y_new", "ky_opening", "tx_positive_opening", "tx_negative_opening", "sx_cur_opening", "rx_opening",
             "rxy_opening", "gx_old_opening", "b_x", "b_xy", "b_y_old", "b_y_cur", "b_y_new")

    def mk(I):
        f = {n: fe("d_" + n) for n in names}
        f["challenges_sq_packed_old"] = [fe("co%d" % i) for i in range(k)]
        f["challenges_sq_packed_new"] = [fe("cn%d" % i) for i in range(k)]
        return mks(I, PR + "Deferred", **{a: I.vec(b) if isinstance(b, list) else b for a, b in f.items()}), f
    # zero x or y_cur: never accepted
    tm.reset()
    I = Interp(prog)
    tr_hooks(I)
    v, f = mk(I)
    r = tob(I.resolve(I.call_key(prog.fn(PR + "Deferred::<F>::verify"), [I.ref(v), k])))
    for n in ("x", "y_cur"):
        R.check("deferred:zero", band(band(I.st.pc, iszero(f[n])), r) is FALSE, "accepts %s = 0, where the equation is undefined" % n)
    R.analysed |= I.analysed
    # both nonzero
    tm.reset()
    for n in ("x", "y_cur"):
        tm.NONZERO.add(T("sym", "d_" + n).id)
    I = Interp(prog)
    tr_hooks(I)
    v, f = mk(I)
    r = tob(I.resolve(I.call_key(prog.fn(PR + "Deferred::<F>::verify"), [I.ref(v), k])))
    x, y = f["x"], f["y_cur"]
    xi, yi = inv0(x), inv0(y)
    n = (1 << k) // 4
    s = sum((x ** (i + n) * y ** i + x ** (i + n) * yi ** i for i in range(1, n + 1)), ZERO)
    # t(x, y) = r(x, 1) (r(x, y) + s'(x, y)) - y^n k(y), with the commitments' shifts undone
    rx = f["rx_opening"] * xi ** (3 * n - 1)
    rxy = f["rxy_opening"] * (xi * yi) ** (3 * n - 1)
    lhs = rx * (rxy + f["sx_cur_opening"] * xi ** n * y ** n - s) - f["ky_opening"] * y ** n
    rhs = f["tx_positive_opening"] * x + f["tx_negative_opening"] * xi ** (4 * n)
    oldc = [root(gcsatom(c)) for c in f["challenges_sq_packed_old"]]
    newc = [root(gcsatom(c)) for c in f["challenges_sq_packed_new"]]
    eqs = [("the circuit equation", lhs - rhs), ("gx_old_opening", b_of(x, oldc) - f["gx_old_opening"]),
           ("b_x", b_of(x, newc) - f["b_x"]), ("b_xy", b_of(x * y, newc) - f["b_xy"]), ("b_y_old", b_of(f["y_old"], newc) - f["b_y_old"]),
           ("b_y_cur", b_of(y, newc) - f["b_y_cur"]), ("b_y_new", b_of(f["y_new"], newc) - f["b_y_new"])]
    conj = TRUE
    for nm, e in eqs:
        e = iszero(e)
        conj = band(conj, e)
        R.check("deferred:checks", band(r, bnot(e)) is FALSE, "k=%d: accepts although %s is wrong" % (k, nm), "acceptance implies the equation")
    R.check("deferred:accepts", r is conj, "k=%d: acceptance is not the conjunction of the deferred equations" % k)
    R.analysed |= I.analysed
    return True


def g_of(k, cs):
    """the folded generator: sum over i of G_i times the product over rounds of c or 1/c (c where the round's bit of i is one)"""
    r = L.Pt({})
    for i in range(1 << k):
        co = ONE
        for j, c in enumerate(cs):
            # round j folds at distance 2^(k-1-j)
            co = co * (c if (i >> (k - 1 - j)) & 1 else inv0(c))
        r = r + L.gen("G%d" % i).scale(co)
    return r


def sx_coeffs(spec, n, y):
    out = [ZERO] * (3 * n + 1)
    for q in range(1, spec.q + 1):
        for i in range(1, spec.n + 1):
            for kd, e in (("A", -i), ("B", i), ("C", i + n)):
                out[e + n] = out[e + n] + spec.coeff(kd, i, q) * y ** q
    return out


def p02_leftovers(R, prog, k):
    tm.reset()
    spec = Spec(1, 2, inputs=[1])
    I = setup(prog, spec)
    tr_hooks(I)
    v, f = abstract_leftovers(I, k, "o_")
    pr = params(I, k)
    r = okv(I, I.call_key(prog.fn(PR + "Leftovers::<C>::verify"), [I.ref(v), I.ref(pr), I.ref(Agg("<circuit>", 0, ()))]))
    r = tob(r)
    cs = [root(gcsatom(c)) for c in f["challenges_sq_packed_new"]]
    sx = sx_coeffs(spec, (1 << k) // 4, f["y_new"])
    eqs = [("the folded generator", L.pt_eq(g_of(k, cs), f["g_new"])),
           ("the commitment to s(X, y_new)", L.pt_eq(sum_pts(L.gen("G%d" % i).scale(c) for i, c in enumerate(sx)), f["s_new_commitment"]))]
    conj = TRUE
    for nm, e in eqs:
        conj = band(conj, e)
        R.check("leftovers:checks", band(r, bnot(e)) is FALSE, "k=%d: accepts although %s is wrong" % (k, nm))
    R.check("leftovers:accepts", r is conj, "k=%d: acceptance is not the conjunction of the leftovers' equations" % k)
    R.analysed |= I.analysed
    return True


def check_p02(R, prog):
    R.notes["explanation"] = (
        "Proof::verify, Deferred::verify and Leftovers::verify are interpreted on proofs, carried-over values and public inputs whose every "
        "component is an independent symbol, with an abstract sponge. The boolean each returns is a decision diagram over the atoms "
        "[polynomial = 0] and [point = 0]; it must be the conjunction of exactly the protocol's equations, which are written independently, "
        "and each value handed on must be the specified expression.")
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    jobs = [("proof", p02_proof, R, prog, k, f, g) for k, f, g in
            [(3, (0, 0, 0), False), (3, (1, 0, 2), True), (2, (0, 1), False), (4, (0, 0, 0, 0), True)] + ([(5, (0, 3, 1, 0, 2), True)] if thorough else [])]
    jobs += [("proof", p02_proof, R, prog, 3, (0, 0, 0), g, at) for at in ((), (2, 3), (2, 5, 6)) for g in (False, True)]
    jobs += [("deferred", p02_deferred, R, prog, k) for k in ((2, 3, 4) + ((5,) if thorough else ()))]
    jobs += [("leftovers", p02_leftovers, R, prog, k) for k in ((2, 3, 4) + ((5, 6) if thorough else ()))]
    rs = R.parallel(jobs)
    R.floor("verifier analyses", sum(rs), len(jobs))
    R.assumptions += PASS


PASS = ["proof sizes (log2 of the generator count) and fork counts up to the analysed ones stand for all",
        "the sponge is a function of what it absorbed (G05)", "multi-exponentiation is a linear combination (U01)",
        "challenges derived from a transcript are nonzero; inputs for which a square root does not exist panic (N02)"]


# ------------------------------------------------------------------ P01
def p01_verify(R, prog, k, forks, given):
    I, r, e = run_verify(prog, k, forks, given)
    key = "Proof::verify(k=%d,forks=%s)" % (k, forks)
    transcript(R, key, I.sq.h, e.hist)
    R.check("verifier:reuse", len(I.sq.h) == len(e.hist), "%s squeezes %d different challenges, the protocol has %d" % (key, len(I.sq.h), len(e.hist)))
    R.analysed |= I.analysed
    return True


def transcript(R, key, got, want):
    for n, w in enumerate(want):
        g = got[n] if n < len(got) else ()
        bad = ""
        if g != w:
            for i in range(max(len(g), len(w))):
                a = g[i] if i < len(g) else "nothing"
                b = w[i] if i < len(w) else "nothing"
                if a != b:
                    bad = "item %d is %s, expected %s" % (i, show(a), show(b))
                    break
        R.check("transcript:challenge", g == w, "%s challenge %d: %s" % (key, n, bad), "absorbed sequence equals the protocol's prefix")


# ------------------------------------------------------------------ prover
class Sat(Spec):
    """a satisfied circuit: c = a b in every gate; the coefficients of each constraint are an antisymmetric form applied to the
    assignment (every vector orthogonal to it has that shape), plus, for input constraints, the input on the right-hand side"""

    def __init__(self, n, q, inputs, order="gates", ones=True):
        super().__init__(n, q, inputs, None, order)
        self.ones = ones
        self.vec = [(kd, i) for i in range(1, n + 1) for kd in "ABC"]
        self.values = []
        for j, qq in enumerate(self.inputs):
            self.values.append(self.inval(qq))

    def inval(self, q):
        return ONE if q == 1 and self.ones else fe("pub%d" % q)

    def val(self, kd, i):
        a, b = fe("a%d" % i), fe("b%d" % i)
        if i == 1 and self.ones and kd in "AC":
            # the constant-one gate: a = 1
            a = ONE
        return {"A": a, "B": b, "C": a * b}[kd]

    def coeff(self, kd, i, q):
        me = self.vec.index((kd, i))
        acc = ZERO
        for j, (k2, i2) in enumerate(self.vec):
            if j == me:
                continue
            m = fe("m%d_%d_%d" % (q, min(me, j), max(me, j)))
            acc = acc + (m if me < j else -m) * self.val(k2, i2)
        if q in self.inputs and me == 0:
            # a1 = 1 carries the input's value
            acc = acc + self.inval(q)
        return acc


def conv(I, c, args, fr):
    """multiply_polynomials (U01 decides it)"""
    a = [I.strip(v) for v in I.items(L.as_slice(I, args[0]))]
    b = [I.strip(v) for v in I.items(L.as_slice(I, args[1]))]
    out = [ZERO] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x.is_zero():
            continue
        for j, y in enumerate(b):
            out[i + j] = out[i + j] + x * y
    return I.vec(out)


def threads(I):
    I.hooks["util::multiply_polynomials"] = conv
    I.hooks["util::parallel_generator_collapse"] = collapse
    I.hooks["util::compute_inner_product"] = inner
    return I


def collapse(I, c, args, fr):
    """generators[i] = inv * g[i] + ch * g[i + l] (U01 decides it)"""
    r = L.as_slice(I, args[0])
    g = [I.strip(v) for v in I.items(r)]
    ch, inv = I.strip(args[1]), I.strip(args[2])
    l = len(g) // 2
    for i in range(l):
        I.store(L.slice_at(r, i), g[i].scale(inv) + g[i + l].scale(ch))
    return UNIT


def inner(I, c, args, fr):
    a = [I.strip(v) for v in I.items(L.as_slice(I, args[0]))]
    b = [I.strip(v) for v in I.items(L.as_slice(I, args[1]))]
    if len(a) != len(b):
        raise Diverge("lengths")
    return sum((x * y for x, y in zip(a, b)), ZERO)


def honest_leftovers(I, k, spec, tag):
    """carried-over values of an earlier accepted proof: only y_new and the challenges are free"""
    y = fe(tag + "y")
    tm.NONZERO.add(T("sym", tag + "y").id)
    ch = [fe("%sc%d" % (tag, i)) for i in range(k)]
    cs = [root(gcsatom(c)) for c in ch]
    sx = sx_coeffs(spec, (1 << k) // 4, y)
    f = {"s_new_commitment": sum_pts(L.gen("G%d" % i).scale(c) for i, c in enumerate(sx)), "y_new": y, "g_new": g_of(k, cs),
         "challenges_sq_packed_new": ch}
    return mks(I, PR + "Leftovers", **{a: I.vec(b) if isinstance(b, list) else b for a, b in f.items()}), f


def proof_fields(I, v):
    """the contents of a returned proof, read back"""
    f = {}
    for x in typeinfo(I.p, PR + "Proof")["v"][0]["f"]:
        if x[0] == "inner_product":
            ipp = field(I, v, x[0])
            f["g"] = I.strip(field(I, ipp, "g"))
            f["a"] = [I.strip(e) for e in I.items(L.as_slice(I, field(I, ipp, "a")))]
            f["rounds"] = []
            for rd in I.items(L.as_slice(I, field(I, ipp, "rounds"))):
                rd = I.strip(rd)
                f["rounds"].append({n: [I.strip(e) for e in I.items(L.as_slice(I, field(I, rd, n)))] for n in "LRlr"})
        else:
            f[x[0]] = I.strip(field(I, v, x[0]))
    return f


def prove(prog, k, N, Q, inputs, forks, order):
    tm.reset()
    spec = Sat(N, Q, inputs, order)
    I = setup(prog, spec)
    tr_hooks(I, forks)
    threads(I)
    I.before = 4
    pr = params(I, k)
    lo, old = honest_leftovers(I, k, spec, "old_")
    circ = Agg("<circuit>", 0, ())
    r = I.call_key(prog.fn(PR + "Proof::<C>::new"), [I.ref(pr), I.ref(circ), I.ref(lo)])
    return I, spec, pr, lo, old, circ, okv(I, r)


def p01_prove(R, prog, k, N, Q, inputs, forks, order):
    I, spec, pr, lo, old, circ, r = prove(prog, k, N, Q, inputs, forks, order)
    key = "Proof::new(k=%d,gates=%d,constraints=%d,forks=%s)" % (k, N, Q, forks)
    f = proof_fields(I, r.f[0])
    ky = [ZERO] * (max(inputs) + 1)
    for q, v in zip(spec.inputs, spec.values):
        ky[q] = v
    kcom = sum_pts(L.gen("G%d" % i).scale(c) for i, c in enumerate(ky))
    e = Expect(f, old, kcom, ky, k, forks, L.gen("one:C"))
    transcript(R, key, I.sq.h, e.hist)
    R.check("prover:reuse", len(I.sq.h) == len(e.hist), "%s squeezes %d different challenges, the protocol has %d" % (key, len(I.sq.h), len(e.hist)))
    R.analysed |= I.analysed
    return True


def p03_case(R, prog, k, N, Q, inputs, forks, order):
    I, spec, pr, lo, old, circ, r = prove(prog, k, N, Q, inputs, forks, order)
    key = "k=%d,gates=%d,constraints=%d,inputs=%s,forks=%s,%s" % (k, N, Q, inputs, forks, order)
    pan = panics(I)
    R.check("prover:panics", not pan, "%s: the prover panics on %s" % (key, pan[:1]))
    proof, plo = r.f[0], r.f[1]
    n0 = len(I.panics)
    v = okv(I, I.call_key(prog.fn(PR + "Proof::<C>::verify"), [I.ref(proof), I.ref(lo), I.ref(pr), I.ref(circ), I.slice(spec.values[1:]), NONE]))
    R.check("verifier:accepts", tob(I.resolve(v.f[0])) is TRUE, "%s: acceptance of the honest proof depends on %s" % (key, show(v.f[0])),
            "every verification equation is an identity")
    fv = [I.resolve(x) for x in I.items(L.as_slice(I, v.f[3]))]
    R.check("verifier:forks", fv == list(forks), "%s: fork values %s" % (key, fv))
    d = tob(I.resolve(I.call_key(prog.fn(PR + "Deferred::<F>::verify"), [I.ref(v.f[2]), k])))
    R.check("deferred:accepts", d is TRUE, "%s: the deferred check of the honest proof depends on %s" % (key, show(d)))
    same = I.resolve(I.call_key(prog.fn("<proofs::Leftovers<C> as std::cmp::PartialEq>::eq"), [I.ref(plo), I.ref(v.f[1])]))
    R.check("leftovers:agree", tob(same) is TRUE, "%s: prover and verifier hand on different values (%s)" % (key, show(same)))
    lv = okv(I, I.call_key(prog.fn(PR + "Leftovers::<C>::verify"), [I.ref(v.f[1]), I.ref(pr), I.ref(circ)]))
    R.check("leftovers:accepts", tob(I.resolve(lv)) is TRUE, "%s: the carried-over values of the honest proof are accepted only if %s" % (key, show(lv)))
    pan = [p for p in I.panics[n0:] if p[0] is not FALSE]
    R.check("verifier:panics", not pan, "%s: the verifier panics on %s" % (key, pan[:1]))
    R.analysed |= I.analysed
    return True


def prover_sizes():
    s = [(3, 1, 1, [1], (0, 0, 0), "gates"), (3, 1, 3, [1, 2], (0, 1, 0), "gates"), (3, 1, 4, [1, 3], (2, 0, 1), "gates"),
         (3, 1, 5, [1, 5], (0, 0, 0), "gates"),
         (3, 1, 7, [1, 6, 7], (1, 0, 0), "mixed"), (4, 3, 15, [1, 9, 15], (0, 0, 0, 0), "gates"), (4, 2, 3, [1, 3], (0, 0, 0, 0), "mixed"), (4, 3, 2, [1, 2], (0, 0, 1, 0), "gates")]
    if os.environ.get("VERIF_TIER") == "thorough":
        s += [(4, 3, 4, [1, 2, 4], (0, 2, 0, 1), "mixed"), (5, 4, 3, [1, 3], (0, 0, 0, 0, 0), "mixed")]
    return s


def check_p03(R, prog):
    R.notes["explanation"] = (
        "The prover is interpreted on circuits given with symbolic coefficients and assignments, parametrised so that they range over all "
        "satisfied circuits of the size analysed, with carried-over values of an arbitrary earlier proof; its result is handed, still "
        "symbolic, to the verifier, the deferred check and the check of the carried-over values. Each must return true as an identity of "
        "polynomials and linear combinations of generators, and neither side may panic.")
    sizes = prover_sizes()
    rs = R.parallel([("case", p03_case, R, prog) + s for s in sizes])
    R.floor("proofs analysed", sum(rs), len(sizes))
    R.assumptions += PASS + ["multiply_polynomials, compute_inner_product and parallel_generator_collapse are the functions U01 establishes"]


def check_p01(R, prog):
    R.notes["explanation"] = (
        "Prover and verifier are interpreted with an abstract sponge that remembers every absorbed value. For each challenge, in order, the "
        "absorbed sequence must be the protocol's prefix, element by element (for the prover in terms of the fields of the proof it returns), "
        "and no other challenge may be squeezed.")
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    jobs = [("verify", p01_verify, R, prog, k, f, g) for k, f, g in
            [(3, (0, 0, 0), False), (3, (1, 0, 2), True), (2, (0, 1), False), (4, (0, 0, 0, 0), True)] + ([(5, (0, 3, 1, 0, 2), True)] if thorough else [])]
    jobs += [("prove", p01_prove, R, prog) + s for s in prover_sizes()]
    rs = R.parallel(jobs)
    R.floor("transcript analyses", sum(rs), len(jobs))
    R.assumptions += PASS
