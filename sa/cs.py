"""Abstract constraint system: records allocations, gates, linear constraints and namespaces as
events, and analyses the recorded constraints."""
from .terms import *
from . import terms as tm
from .interp import Agg, Ref, VecV, UNIT, tup, OPT, RES, NONE, some, ok, err, Imprecise, Diverge
from . import lib as L

def xv(var):
    """unknown assigned to a circuit variable"""
    if not isinstance(var, Term) or var.op != "var":
        raise Imprecise("not a circuit variable: %r" % (var,))
    if var.args == ("ONE",):
        return ONE
    if var.args[0] == "sem":
        m = var.args[1]
        return b2f(m) if isinstance(m, B) else m
    return P(T("X", var))


class CSV:
    adt = "<cs>"

    def __init__(self, cell, cnt, mode):
        self.cell = cell
        self.cnt = cnt
        self.mode = mode

    def method(self, I, c, m, tr, args, fr):
        if tr != "circuits::ConstraintSystem":
            return NotImplemented
        f = getattr(self, "m_" + m, None)
        if f is None:
            return NotImplemented
        return f(I, args)

    def newvar(self, I, kind):
        n = I.st.get(self.cnt)
        if not isinstance(n, int):
            raise Imprecise("number of allocated variables depends on a branch")
        I.st.set(self.cnt, n + 1)
        return T("var", kind, n)

    def value(self, I, f):
        if self.mode != "prove":
            return None
        r = I.resolve(I.call_value(f, []))
        return split_ok(I, r)

    def demand(self, I, f, res, ev):
        """a backend that asks for the witness and hands a failure on: the event carries what the closure returned"""
        r = I.resolve(I.call_value(f, []))
        I.st.emit(ev + (r,))
        return map_ok(I, r, lambda _: res)

    def m_alloc(self, I, args, kind="alloc"):
        if self.mode == "missing":
            x = self.newvar(I, "in" if kind == "input" else "v")
            return self.demand(I, args[2], x, (kind, x))
        v = self.value(I, args[2])
        x = self.newvar(I, "in" if kind == "input" else "v")
        I.st.emit((kind, x, v))
        return ok(x)

    def m_alloc_input(self, I, args):
        return self.m_alloc(I, args, "input")

    def m_enforce_zero(self, I, args):
        I.st.emit(("zero", lc_poly(I, args[1])))
        return UNIT

    def m_multiply(self, I, args):
        if self.mode == "missing":
            xs = [self.newvar(I, k) for k in ("a", "b", "c")]
            return self.demand(I, args[2], tup(*xs), ("mul",) + tuple(xs))
        v = self.value(I, args[2])
        if isinstance(v, Agg):
            v = tuple(v.f)
        xs = [self.newvar(I, k) for k in ("a", "b", "c")]
        I.st.emit(("mul",) + tuple(xs) + (v,))
        return ok(tup(*xs))

    def m_push_namespace(self, I, args):
        I.st.emit(("push",))
        return UNIT

    def m_pop_namespace(self, I, args):
        I.st.emit(("pop",))
        return UNIT

    def m_get_root(self, I, args):
        return Ref(self.cell)


def map_ok(I, r, f):
    r = I.resolve(r)
    if isinstance(r, Term) and r.op == "ite":
        return I.ite(r.args[0], map_ok(I, r.args[1], f), map_ok(I, r.args[2], f))
    if isinstance(r, Agg) and r.ty == RES:
        return ok(f(r.f[0])) if r.var == 0 else r
    raise Imprecise("witness closure result %r" % (r,))


def split_ok(I, r):
    """value of a Result, refining the path condition with its success"""
    r = I.resolve(r)
    if isinstance(r, Agg) and r.ty == RES:
        if r.var == 0:
            return I.resolve(r.f[0])
        I.st.emit(("fail", I.st.pc))
        raise Diverge("witness closure fails")
    if isinstance(r, Term) and r.op == "ite":
        c, a, b = r.args
        ga, gb = L.good(I, a, 0), L.good(I, b, 0)
        if ga and gb:
            return I.ite(c, split_ok(I, a), split_ok(I, b))
        keep = c if ga else bnot(c)
        if not ga and not gb:
            I.st.emit(("fail", I.st.pc))
            raise Diverge("witness closure fails")
        I.st.emit(("fail", band(I.st.pc, bnot(keep))))
        I.st.pc = band(I.st.pc, keep)
        return split_ok(I, a if ga else b)
    raise Imprecise("witness closure result %r" % (r,))


def coeff_value(I, c):
    return I.call_key(I.p.fn("circuits::Coeff::<F>::value"), [I.ref(c)])


def lc_poly(I, lc):
    lc = I.strip(lc)
    if isinstance(lc, Term) and lc.op == "ite":
        return I.ite(lc.args[0], lc_poly(I, lc.args[1]), lc_poly(I, lc.args[2]))
    if not isinstance(lc, Agg):
        raise Imprecise("linear combination %r" % (lc,))
    items = I.items(L.as_slice(I, lc.f[0]))
    acc = ZERO
    for it in items:
        it = I.resolve(it)
        var = I.resolve(it.f[0])
        co = coeff_value(I, it.f[1])
        acc = acc + co * varpoly(I, var)
    return acc


def varpoly(I, var):
    if isinstance(var, Term) and var.op == "ite":
        return I.ite(var.args[0], varpoly(I, var.args[1]), varpoly(I, var.args[2]))
    return xv(var)


def new_cs(I, mode="prove"):
    cell = I.st.new(None)
    cnt = I.st.new(0)
    v = CSV(cell, cnt, mode)
    I.st.set(cell, v)
    return Ref(cell)


class Circuit:
    """the recorded constraints of one run (flattened; conditional events kept aside)"""

    def __init__(self, events):
        self.vars = []
        self.val = {}
        self.kind = {}
        self.zeros = []
        self.muls = []
        self.fails = []
        self.branches = []
        self.ns = 0
        self.minns = 0
        for e in events:
            self.add(e)

    def add(self, e):
        k = e[0]
        if k in ("alloc", "input"):
            self.vars.append(e[1])
            self.val[e[1]] = e[2]
            self.kind[e[1]] = k
        elif k == "mul":
            for i in range(3):
                self.vars.append(e[1 + i])
                self.val[e[1 + i]] = e[4][i] if e[4] is not None else None
                self.kind[e[1 + i]] = "mul"
            self.muls.append((e[1], e[2], e[3]))
        elif k == "zero":
            self.zeros.append(e[1])
        elif k == "push":
            self.ns += 1
        elif k == "pop":
            self.ns -= 1
            self.minns = min(self.ns, self.minns)
        elif k == "fail":
            self.fails.append(e[1])
        elif k == "branch":
            self.branches.append(e)
        elif k == "maybe_err":
            pass

    def equations(self):
        out = [("zero#%d" % i, z) for i, z in enumerate(self.zeros)]
        for i, (a, b, c) in enumerate(self.muls):
            out.append(("mul#%d" % i, xv(a) * xv(b) - xv(c)))
        return out


def shape(events):
    """event log without assignment values"""
    out = []
    for e in events:
        if e[0] in ("alloc", "input"):
            out.append((e[0], e[1]))
        elif e[0] == "mul":
            out.append(e[:4])
        elif e[0] in ("zero", "push", "pop"):
            out.append(e)
        elif e[0] == "branch":
            out.append(("branch", e[1]))
        elif e[0] in ("fail", "maybe_err"):
            continue
        else:
            out.append(e)
    return out
