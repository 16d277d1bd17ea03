"""Rescue: the native sponge and the sponge gadget are interpreted over the same operation histories;
every squeezed element must have the same normal form on both sides, both as the value carried and as
the value the constraints force."""
from .gad import *
from . import terms as tm

NUMP = "gadgets::num::AllocatedNum::<F>::"


def factor(p):
    """a sum as an opaque factor, so that powers of sums stay small and canonical"""
    return p if len(p.m) <= 1 else P(T("fac", p))


def opaque(I):
    I.hooks["ring.mul"] = lambda a, b: a * b if a.is_const() or b.is_const() else factor(a) * factor(b)
    I.hooks["ring.powall"] = lambda x, n: factor(x) ** n if n < 64 else P(T("pow", x, n))


class Defs:
    """values forced by the linear constraints recorded so far"""

    def __init__(self, g):
        self.g = g
        self.pos = 0
        self.map = {}
        self.left = []

    def update(self):
        evs = self.g.I.st.events
        while self.pos < len(evs):
            e = evs[self.pos]
            self.pos += 1
            if e[0] == "zero":
                r = subst(e[1], self.map)
                unk = {}
                okk = True
                for m, c in r.m.items():
                    for a, k in m:
                        t = tm._all[a]
                        if t.op == "X":
                            if len(m) != 1 or k != 1:
                                okk = False
                            unk[a] = c
                if not unk:
                    if not r.is_zero():
                        raise Imprecise("constraint between known values: %s" % (r,))
                    continue
                free = [a for a in unk]
                if not okk or len(free) != 1:
                    raise Imprecise("constraint with several unknowns: %s" % (r,))
                a = free[0]
                c = r.m[((a, 1),)]
                rest = r - P(tm._all[a]).scale(c)
                if abs(c) != 1:
                    raise Imprecise("coefficient")
                self.map[a] = rest.scale(-c)
            elif e[0] == "mul":
                raise Imprecise("multiplication gate outside the S-boxes")

    def meaning(self, p):
        self.update()
        p = subst(p, self.map)
        for m in p.m:
            for a, k in m:
                if tm._all[a].op == "X":
                    raise Imprecise("unconstrained variable %s" % (tm._all[a],))
        return p


def sboxes(g, defs, calls):
    I = g.I

    def mk(n, f):
        def h(I_, c, args, fr):
            comb = [a for a in args if isinstance(I.strip(a), Agg) and I.strip(a).ty == COMB]
            for a in args:
                if isinstance(a, Agg):
                    I.drop_value(a, I.ref(a), None)
            calls[n] = calls.get(n, 0) + 1
            x = I.strip(comb[0])
            m = f(defs.meaning(g.expr_of(x)))
            v = g.value_of(x)
            if g.mode == "prove" and v is None:
                raise Imprecise("S-box input without value")
            return ok(mks(I, NUM, value=some(f(v)) if g.mode == "prove" else NONE, var=T("var", "sem", m)))
        return h
    I.hooks[NUMP + "rescue_alpha"] = mk("alpha", lambda p: factor(p) ** 5)
    I.hooks[NUMP + "rescue_invalpha"] = mk("invalpha", L.fifth_root)


def history(R, prog, h, kinds):
    key = "history/" + compress(h)
    tm.reset()
    # native
    N = Interp(prog)
    opaque(N)
    nat = N.ref(N.call_key(prog.fn("rescue::Rescue::<F>::new"), [], {}))
    native, i = [], 0
    for op in h:
        if op == "a":
            N.call_key(prog.fn("rescue::Rescue::<F>::absorb"), [nat, inp(i, kinds)], {})
            i += 1
        else:
            native.append(N.strip(N.call_key(prog.fn("rescue::Rescue::<F>::squeeze"), [nat], {})))
    R.analysed |= N.analysed
    for p in native:
        if not isinstance(p, Poly):
            raise Imprecise("squeezed %r" % (p,))
    shapes = {}
    for mode in ("prove", "verify"):
        g = G(prog, mode)
        I = g.I
        opaque(I)
        calls = {}
        defs = Defs(g)
        sboxes(g, defs, calls)
        gad = g.ref(g.unwrap(g.call("gadgets::rescue::RescueGadget::<F>::new")))
        outs, i = [], 0
        for op in h:
            if op == "a":
                k = kinds[i % len(kinds)]
                if k == "c":
                    x = mke(I, NUME, "Constant", mke(I, COEFF, "Full", inp(i, kinds)))
                else:
                    c = {"a": mke(I, COEFF, "One"), "n": mke(I, COEFF, "NegativeOne")}[k]
                    s = fe("in%d" % i)
                    x = mke(I, NUME, "Allocated", c, mks(I, NUM, value=g.opt(s, "in%d" % i), var=T("var", "sem", s)))
                g.unwrap(g.call("gadgets::rescue::RescueGadget::<F>::absorb", gad, x))
                i += 1
            else:
                outs.append(g.unwrap(g.call("gadgets::rescue::RescueGadget::<F>::squeeze", gad)))
        for j, (o, want) in enumerate(zip(outs, native)):
            R.check(key + ":forced", R.run(key, lambda: defs.meaning(g.expr_of(o))) == want,
                    "squeezed element %d is not forced to the native sponge's value" % j,
                    "normal form of the constrained value equals the native sponge's")
            if mode == "prove":
                R.check(key + ":value", g.value_of(o) == want, "squeezed element %d carries a different value" % j)
        c = g.finish()
        if mode == "prove":
            hm = g.honest()
            for n, e in c.equations():
                R.check(key + ":complete", subst(e, hm).is_zero(), "honest assignment violates %s" % n)
        R.check(key + ":namespaces", c.ns == 0 and c.minns >= 0 and not c.branches and not c.fails, "namespaces or branches")
        shapes[mode] = C.shape(I.st.events)
        pan = [x for x in I.panics if x[0] is not FALSE and "assert:" not in x[1]]
        R.check(key + ":panics", not pan, "may panic: %s" % (pan[:2],))
        R.analysed |= I.analysed
    R.check(key + ":shape", shapes["prove"] == shapes["verify"], "constraints depend on the witness")
    return native


def inp(i, kinds):
    return -fe("in%d" % i) if kinds[i % len(kinds)] == "n" else fe("in%d" % i)


def compress(h):
    out = ""
    i = 0
    while i < len(h):
        j = i
        while j < len(h) and h[j] == h[i]:
            j += 1
        out += h[i] + (str(j - i) if j - i > 1 else "")
        i = j
    return out


def depends(p, t, memo):
    """does the normal form mention the atom?"""
    if isinstance(p, Poly):
        for m in p.m:
            for a, _ in m:
                if depends(tm._all[a], t, memo):
                    return True
        return False
    if isinstance(p, Term):
        if p is t:
            return True
        if p.id not in memo:
            memo[p.id] = any(depends(x, t, memo) for x in p.args if isinstance(x, (Term, Poly)))
        return memo[p.id]
    return False


def check_rescue(R, prog):
    hs = ["s", "ass", "a" * 12 + "sas", "a" * 13 + "s", "a" * 25 + "ss", "a" + "s" * 13 + "as", "s" * 13 + "as" + "s" * 12,
          "aasas" + "a" * 12 + "ss", "a" * 11 + "s" * 11 + "aas", "a" * 12 + "s" * 12 + "a" * 13 + "s"]
    def one(h, kinds):
        native = history(R, prog, h, kinds)
        if h == "a" * 12 + "sas":
            for j in range(12):
                t = T("sym", "in%d" % j)
                R.check("influence:position%d" % j, any(depends(p, t, {}) for p in native),
                        "the element absorbed at rate position %d does not influence any squeezed element" % j)
        return True

    from . import p_gadgets as pg
    jobs = [("history/" + compress(h), one, h, ["a", "n", "c"] if i % 2 else ["a"]) for i, h in enumerate(hs)]
    rs = R.parallel(jobs + [("sboxes", lambda: (pg.check_sbox(R, prog), True)[1])])
    R.floor("histories", sum(rs[:-1]), len(hs))
