"""Gadget analysis: runs a gadget abstractly in both roles, then decides completeness (the honest
assignment satisfies every recorded constraint), functional soundness (the recorded constraints
imply the specified relation between inputs and outputs), coherence (the value carried by a
returned object is the assignment of the expression it denotes) and shape independence."""
from .terms import *
from . import terms as tm
from .interp import *
from . import lib as L
from . import cs as C


def typeinfo(prog, path):
    d = getattr(prog, "_adt", None)
    if d is None:
        d = prog._adt = {}
        for t in prog.types:
            if t["k"] == "adt":
                d.setdefault(t["p"], t)
    if path not in d:
        raise Imprecise("type not found: " + path)
    return d[path]


def mks(I, path, **kw):
    t = typeinfo(I.p, path)
    fs = []
    for f in t["v"][0]["f"]:
        n = f[0]
        if n in kw:
            fs.append(kw.pop(n))
        elif "PhantomData" in I.p.types[f[1]].get("s", ""):
            fs.append(Agg("std::marker::PhantomData", 0, ()))
        else:
            raise Imprecise("unexpected field %s of %s" % (n, path))
    if kw:
        raise Imprecise("missing field %s of %s" % (sorted(kw), path))
    return Agg(path, 0, fs)


def mke(I, path, variant, *fs):
    t = typeinfo(I.p, path)
    for i, v in enumerate(t["v"]):
        if v["n"] == variant:
            return Agg(path, i, fs)
    raise Imprecise("no variant %s of %s" % (variant, path))


def variant(I, v):
    return typeinfo(I.p, v.ty)["v"][v.var]["n"]


def field(I, v, name):
    v = I.strip(v)
    if isinstance(v, Term) and v.op == "ite":
        return I.ite(v.args[0], field(I, v.args[1], name), field(I, v.args[2], name))
    t = typeinfo(I.p, v.ty)
    for i, f in enumerate(t["v"][v.var]["f"]):
        if f[0] == name:
            return I.resolve(v.f[i])
    raise Imprecise("no field %s in %s" % (name, v.ty))


NUM = "gadgets::num::AllocatedNum"
NUME = "gadgets::num::Num"
COMB = "gadgets::num::Combination"
BIT = "gadgets::boolean::AllocatedBit"
BOOL = "gadgets::boolean::Boolean"
COEFF = "circuits::Coeff"
LC = "circuits::LinearCombination"
POINT = "gadgets::ecc::CurvePoint"


class G:
    """one abstract run of a gadget"""

    def __init__(self, prog, mode="prove", setup=None, miss=None):
        """mode: prove, verify (no witness, closures never called) or missing (closures are called although the values of the
        inputs in miss, or all of them, are absent)"""
        self.I = Interp(prog)
        self.mode = mode
        self.miss = miss
        self.names = []
        self.cs = C.new_cs(self.I, mode)
        self.inputs = {}  # var term -> honest value Poly
        self.bits = []
        self.spec_x = {}  # name -> X poly
        self.spec_v = {}  # name -> value poly
        if setup:
            setup(self)

    def have(self, *names):
        """are the values of these inputs present?"""
        for n in names:
            if n not in self.names:
                self.names.append(n)
        return self.mode == "prove" or self.mode == "missing" and self.miss is not None and not any(n in self.miss for n in names)

    def opt(self, v, *names):
        return some(v) if self.have(*names) else NONE

    def given(self, v, *names):
        """what a witness closure returns"""
        return self.closure(ok(v) if self.have(*names) else err(mke(self.I, "circuits::SynthesisError", "AssignmentMissing")))

    # ---- input builders
    def num(self, n, value=None):
        v = fe(n) if value is None else value
        var = T("var", "pre", n)
        self.inputs[var] = v
        self.spec_x[n] = C.xv(var)
        self.spec_v[n] = v
        return mks(self.I, NUM, value=self.opt(v, n), var=var)

    def bit(self, n):
        b = bvar(T("bit", T("sym", n), 0))
        var = T("var", "pre", n)
        self.inputs[var] = b2f(b)
        x = C.xv(var)
        tm.IDEM.add(T("X", var).id)
        self.bits.append(var)
        self.spec_x[n] = x
        self.spec_v[n] = b2f(b)
        return mks(self.I, BIT, value=self.opt(b, n), var=var)

    def boolean(self, n, kind):
        if kind in ("T", "F"):
            self.spec_x[n] = self.spec_v[n] = ONE if kind == "T" else ZERO
            return mke(self.I, BOOL, "Constant", kind == "T")
        b = self.bit(n)
        if kind == "Not":
            self.spec_x[n] = ONE - self.spec_x[n]
            self.spec_v[n] = ONE - self.spec_v[n]
        return mke(self.I, BOOL, kind, b)

    def coeff(self, n, kind):
        v = {"Zero": ZERO, "One": ONE, "NegativeOne": -ONE, "Full": fe(n)}[kind]
        self.spec_x[n] = self.spec_v[n] = v
        return mke(self.I, COEFF, kind, *([v] if kind == "Full" else []))

    def nume(self, n, kind, ck="Full"):
        c = self.coeff(n + "_c", ck)
        if kind == "Constant":
            self.spec_x[n] = self.spec_v[n] = self.spec_v[n + "_c"]
            return mke(self.I, NUME, "Constant", c)
        a = self.num(n)
        k = self.spec_v[n + "_c"]
        self.spec_x[n] = k * self.spec_x[n]
        self.spec_v[n] = k * self.spec_v[n]
        return mke(self.I, NUME, "Allocated", c, a)

    def comb(self, n, kinds):
        """Combination with one term per entry of kinds ('a' allocated / 'c' constant)"""
        terms = []
        x = v = ZERO
        for i, k in enumerate(kinds):
            m = "%s%d" % (n, i)
            terms.append(self.nume(m, "Constant" if k == "c" else "Allocated"))
            x = x + self.spec_x[m]
            v = v + self.spec_v[m]
        self.spec_x[n], self.spec_v[n] = x, v
        val = some(v) if self.have(*["%s%d" % (n, i) for i, k in enumerate(kinds) if k != "c"]) or "a" not in kinds else NONE
        return mks(self.I, COMB, value=val, terms=self.I.vec(terms))

    def point(self, n, ident="Is"):
        x, y = self.num(n + "x"), self.num(n + "y")
        return mks(self.I, POINT, x=mke(self.I, NUME, "Allocated", mke(self.I, COEFF, "One"), x),
                   y=mke(self.I, NUME, "Allocated", mke(self.I, COEFF, "One"), y),
                   is_identity=self.boolean(n + "id", ident))

    def word(self, n, w, kinds=None):
        """UInt32 / UInt64 with one entry of kinds per bit (cyclic): Is / Not / T / F"""
        path = "gadgets::uint%d::UInt%d" % (w, w)
        kinds = kinds or ["Is"]
        W = T("word", n, w)
        bits, hb, xs = [], [], ZERO
        for i in range(w):
            k = kinds[i % len(kinds)]
            m = "%s_%d" % (n, i)
            if k in "TF":
                bits.append(mke(self.I, BOOL, "Constant", k == "T"))
                hb.append(TRUE if k == "T" else FALSE)
                self.spec_x[m] = self.spec_v[m] = P(1 if k == "T" else 0)
            else:
                b = bvar(T("bit", W, i))
                hb.append(b)
                var = T("var", "pre", m)
                hv = b if k == "Is" else bnot(b)
                self.inputs[var] = b2f(hv)
                x = C.xv(var)
                tm.IDEM.add(T("X", var).id)
                self.bits.append(var)
                bits.append(mke(self.I, BOOL, k, mks(self.I, BIT, value=self.opt(hv, n), var=var)))
                self.spec_x[m] = x if k == "Is" else ONE - x
                self.spec_v[m] = b2f(b)
            xs = xs + self.spec_x[m].scale(1 << i)
        if all(b in (TRUE, FALSE) for b in hb):
            W = sum((1 << i) for i, b in enumerate(hb) if b is TRUE)
        elif any(b in (TRUE, FALSE) for b in hb):
            W = T("bits", tuple(hb))
        self.spec_x[n] = xs
        from .intdom import wordpoly
        self.spec_v[n] = wordpoly(W)
        const = all(b in (TRUE, FALSE) for b in hb)
        self.words = getattr(self, "words", {})
        self.words[n] = W
        self.wbits = getattr(self, "wbits", {})
        self.wbits[n] = hb
        return mks(self.I, path, bits=self.I.vec(bits), value=some(W) if const or self.have(n) else NONE)

    def closure(self, result):
        """FnOnce() -> Result<..> returning a fixed value"""
        return PyFn(lambda I, args: result)

    def ref(self, v):
        return self.I.ref(v)

    def call(self, path, *args):
        b = self.I.p.bodies[self.I.p.fn(path)]
        out = []
        it = list(args)
        for i in range(b["argc"]):
            t = self.I.p.types[b["locals"][i + 1]]
            if t["k"] == "param" and (t["s"] in ("CS",) or "ConstraintSystem" in t["s"]) or (
                t["k"] == "ref" and self.I.p.types[t["t"]]["k"] == "param" and self.I.p.types[t["t"]]["s"] == "CS"
            ):
                out.append(self.cs)
            else:
                out.append(it.pop(0))
        if it:
            raise Imprecise("arguments of %s changed" % path)
        env = {}
        return self.I.call_key(self.I.p.fn(path), out, env)

    # ---- reading results
    def unwrap(self, r):
        r = self.I.resolve(r)
        if isinstance(r, Term) and r.op == "ite" or isinstance(r, Agg) and r.ty == RES:
            return C.split_ok(self.I, r)
        return r

    def value_of(self, v):
        """value carried by a gadget object (None when it carries none)"""
        I = self.I
        v = I.strip(v)
        if isinstance(v, Term) and v.op == "ite":
            a, b = self.value_of(v.args[1]), self.value_of(v.args[2])
            return None if a is None or b is None else I.ite(v.args[0], a, b)
        h = v.ty
        if h == NUM or h == BIT or h == COMB:
            o = field(I, v, "value")
            return self.optval(o)
        if h == NUME:
            if variant(I, v) == "Constant":
                return C.coeff_value(I, v.f[0])
            x = self.value_of(v.f[1])
            return None if x is None else C.coeff_value(I, v.f[0]) * x
        if h == BOOL:
            k = variant(I, v)
            if k == "Constant":
                return b2f(tob(I.resolve(v.f[0])))
            x = self.value_of(v.f[0])
            return None if x is None else x if k == "Is" else ONE - x
        raise Imprecise("value of " + h)

    def optval(self, o):
        I = self.I
        o = I.resolve(o)
        if isinstance(o, Term) and o.op == "ite":
            a, b = self.optval(o.args[1]), self.optval(o.args[2])
            return None if a is None or b is None else I.ite(o.args[0], a, b)
        if o.var == 0:
            return None
        x = I.strip(o.f[0])
        if isinstance(x, (bool, B)):
            return b2f(tob(x))
        return x

    def expr_of(self, v):
        """circuit expression (over X unknowns) denoted by a gadget object"""
        I = self.I
        v = I.strip(v)
        if isinstance(v, Term) and v.op == "ite":
            return I.ite(v.args[0], self.expr_of(v.args[1]), self.expr_of(v.args[2]))
        h = v.ty
        if h == NUM or h == BIT:
            return C.varpoly(I, field(I, v, "var"))
        if h == NUME:
            if variant(I, v) == "Constant":
                return C.coeff_value(I, v.f[0])
            return C.coeff_value(I, v.f[0]) * self.expr_of(v.f[1])
        if h == COMB:
            acc = ZERO
            for t in I.items(L.as_slice(I, field(I, v, "terms"))):
                acc = acc + self.expr_of(t)
            return acc
        if h == BOOL:
            k = variant(I, v)
            if k == "Constant":
                return b2f(tob(I.resolve(v.f[0])))
            x = self.expr_of(v.f[0])
            return x if k == "Is" else ONE - x
        if h == LC:
            return C.lc_poly(I, v)
        raise Imprecise("expression of " + h)

    def finish(self):
        self.circ = C.Circuit(self.I.st.events)
        return self.circ

    # ---- decisions
    def honest(self):
        m = {T("X", v).id: x for v, x in self.inputs.items()}
        for v in self.circ.vars:
            x = self.circ.val[v]
            if x is None:
                continue
            if isinstance(x, (bool, B)):
                x = b2f(tob(x))
            m[T("X", v).id] = x
        return m

    def incomplete(self, assume=TRUE):
        """constraints the honest assignment does not satisfy"""
        m = self.honest()
        out = []
        for n, e in self.circ.equations():
            try:
                r = subst(e, m)
            except Blowup:
                out.append((n, e, None))
                continue
            if not self.zero_under(r, assume):
                out.append((n, e, r))
        return out

    def zero_under(self, r, assume=TRUE):
        if r.is_zero():
            return True
        pc = band(self.I.st.pc, assume)
        r = under(r, pc)
        if r.is_zero():
            return True
        if numer_zero(r):
            # assumed every inverted quantity non-zero: needs the path condition to say so
            return True
        return False


class PyFn:
    def __init__(self, f):
        self.f = f

    def call(self, I, args):
        return self.f(I, args)

    def __hash__(self):
        return id(self)


def fe(n):
    return P(T("sym", n))


def literals(pc):
    """atoms fixed by a path condition"""
    out = {}
    for v in bsupport(pc):
        if brestrict(pc, {v: False}) is FALSE:
            out[v] = True
        elif brestrict(pc, {v: True}) is FALSE:
            out[v] = False
    return out


def under(p, pc):
    lits = literals(pc)
    m = {a: (ONE if b else ZERO) for a, b in lits.items() if a in p.atoms()}
    return subst(p, m) if m else p


class Solved:
    """elimination of circuit unknowns from the recorded constraints"""

    def __init__(self, eqs, inputs, nonzero=(), assume=None):
        self.sub = {}
        self.rest = []
        self.nonzero = list(nonzero)
        self.idem = set()
        inp = {T("X", v).id for v in inputs}
        self.inp = inp
        eqs = [e for e in eqs if not e.is_zero()]
        if assume:
            eqs = [subst(e, assume) for e in eqs]
            eqs = [e for e in eqs if not e.is_zero()]
        import heapq
        live = {}
        occ = {}
        heap = []

        def add(i, e):
            live[i] = e
            for a in e.atoms():
                occ.setdefault(a, set()).add(i)
            heapq.heappush(heap, (len(e.m), i))

        for i, e in enumerate(eqs):
            add(i, e)
        subocc = {}
        todo_bool = True
        while True:
            while heap:
                n, i = heapq.heappop(heap)
                e = live.get(i)
                if e is None or len(e.m) != n:
                    continue
                a = boolean_eq(e)
                if a is not None:
                    del live[i]
                    if a not in tm.IDEM:
                        tm.IDEM.add(a)
                        self.idem.add(a)
                        for j in list(occ.get(a, ())):
                            if j in live:
                                x = renorm(live[j])
                                if x.is_zero():
                                    del live[j]
                                else:
                                    add(j, x)
                        for k in subocc.get(a, ()):
                            self.sub[k] = renorm(self.sub[k])
                    continue
                s = self.solvable(e)
                if s is None:
                    continue
                del live[i]
                a, val = s
                mp = {a: val}
                for j in list(occ.get(a, ())):
                    x = live.get(j)
                    if x is None or a not in x.atoms():
                        continue
                    x = subst(x, mp)
                    if x.is_zero():
                        del live[j]
                    else:
                        add(j, x)
                vat = val.atoms()
                for k in subocc.pop(a, ()):
                    self.sub[k] = subst(self.sub[k], mp)
                    for b in vat:
                        subocc.setdefault(b, set()).add(k)
                self.sub[a] = val
                for b in vat:
                    subocc.setdefault(b, set()).add(a)
            break
        eqs = [live[i] for i in sorted(live)]
        self.rest = eqs
        self.basis = None

    def solvable(self, e):
        """(atom, value) if e is linear with unit coefficient in some unknown"""
        cand = {}
        for k, c in e.m.items():
            for a, x in k:
                if a in self.inp or a in tm.IDEM or not isX(a) or tm._all[a].args[0].args[0] == "aux":
                    continue
                if len(k) == 1 and x == 1 and a not in cand:
                    cand[a] = c
                elif len(k) > 1 or x > 1:
                    cand[a] = None
        for a in sorted(cand, reverse=True):
            c = cand[a]
            if c is None:
                continue
            if any(len(k) > 1 and any(b == a for b, _ in k) for k in e.m):
                continue
            return a, (e - Poly({((a, 1),): c})).scale(-cinv(c))
        return None

    def expr(self, p):
        return subst(p, {a: v for a, v in self.sub.items() if a in p.atoms()})

    def implies_zero(self, rel, cofactors=()):
        """is rel in the ideal generated by the remaining relations (optionally after
        multiplying by quantities known to be non-zero)?"""
        r = self.expr(rel)
        if r.is_zero():
            return True
        if self.rest and nf(r, self.rest).is_zero():
            return True
        if self.basis is None:
            ats = set()
            for e in self.rest:
                ats |= e.atoms()
            self.basis = groebner(self.rest) if len(ats) <= 60 else self.rest
        if nf(r, self.basis).is_zero():
            return True
        for c in list(cofactors) + list(self.nonzero):
            if nf(self.expr(c) * r, self.basis).is_zero():
                return True
        return False


def isX(a):
    return tm._all[a].op == "X"


def renorm(p):
    """re-apply monomial rules after new idempotents were declared"""
    out = ZERO
    r = {}
    for k, c in p.m.items():
        k2 = mmul(k, ())
        k2 = tuple((a, 1 if a in tm.IDEM else e) for a, e in k)
        n = norm_c(r.get(k2, 0) + c)
        if n == 0:
            r.pop(k2, None)
        else:
            r[k2] = n
    return Poly(r)


def boolean_eq(e):
    """atom a if e is c*(a^2 - a)"""
    if len(e.m) != 2:
        return None
    ks = sorted(e.m, key=lambda k: sum(x for _, x in k))
    if len(ks[0]) == 1 and len(ks[1]) == 1 and ks[0][0][1] == 1 and ks[1][0] == (ks[0][0][0], 2):
        if norm_c(e.m[ks[0]] + e.m[ks[1]]) == 0:
            return ks[0][0][0]
    return None


def lm_of(p):
    return max(p.m, key=lambda k: (sum(e for _, e in k), sorted(((a, e) for a, e in k), reverse=True)))


def nf(p, basis):
    """normal form by multivariate division"""
    out = {}
    n = 0
    bl = [(lm_of(b), b) for b in basis]
    while p.m:
        n += 1
        if n > 20000:
            raise Blowup("division")
        k = lm_of(p)
        c = p.m[k]
        for l, b in bl:
            q = mdiv(k, l)
            if q is not None:
                p = p - pmul(Poly({q: norm_c(c * cinv(b.m[l]))}), b)
                break
        else:
            out[k] = norm_c(out.get(k, 0) + c)
            p = Poly({x: y for x, y in p.m.items() if x != k})
    return Poly({k: c for k, c in out.items() if c != 0})


def lcm(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = max(d.get(k, 0), e)
    return tuple(sorted(d.items()))


def groebner(eqs, limit=300):
    B_ = [e for e in eqs if not e.is_zero()]
    # idempotent atoms contribute their own relations implicitly through mmul
    pairs = [(i, j) for i in range(len(B_)) for j in range(i)]
    n = 0
    while pairs:
        i, j = pairs.pop(0)
        f, g = B_[i], B_[j]
        lf, lg = lm_of(f), lm_of(g)
        if not set(dict(lf)) & set(dict(lg)):
            continue
        l = lcm(lf, lg)
        s = pmul(Poly({mdiv(l, lf): cinv(f.m[lf])}), f) - pmul(Poly({mdiv(l, lg): cinv(g.m[lg])}), g)
        r = nf(s, B_)
        n += 1
        if n > limit:
            break
        if not r.is_zero():
            B_.append(r)
            pairs += [(len(B_) - 1, x) for x in range(len(B_) - 1)]
    # idempotent interplay: a*f for boolean a in f
    for f in list(B_):
        for a in f.atoms():
            if a in tm.IDEM:
                r = nf(pmul(Poly({((a, 1),): 1}), f), B_)
                if not r.is_zero():
                    B_.append(r)
    return B_
