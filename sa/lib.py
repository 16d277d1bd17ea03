"""Models of library functions (core, alloc, subtle, byteorder, rand_core, num_cpus,
crossbeam_utils) and of the crate's abstract algebra (Field / Curve / ConstraintSystem)."""
from .terms import *
from . import terms as tm
from .interp import (SymIx, 
    Agg, Ref, VecV, BoxV, Clo, FnV, UNIT, UNINIT, tup, OPT, RES, CTO, NONE, some, ok, err,
    Imprecise, Diverge, head,
)
from .intdom import bitof, b2i, mask, wordpoly

LIB = {}


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f

    return d


def on_symbolic_index(I, iv):
    I.assumed.add("symbolic-index")


# ------------------------------------------------------------------ group elements
class Pt:
    """element of an abstract prime-order group: linear combination of generators"""
    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if not v.is_zero()}
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return self is o or isinstance(o, Pt) and self.m == o.m

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r[k] + v if k in r else v
            if r[k].is_zero():
                del r[k]
        q = Pt.__new__(Pt)
        q.m, q._h = r, None
        return q

    def scale(self, s):
        return Pt({k: v * s for k, v in self.m.items()})

    def __neg__(self):
        return self.scale(P(-1))

    def __sub__(self, o):
        return self + (-o)

    def join(self, I, c, o):
        if isinstance(o, Pt):
            if self.m == o.m:
                return self
            r = dict(o.m)
            b = b2f(c)
            for k, v in self.m.items():
                w = o.m.get(k)
                if w is None:
                    r[k] = v * b
                elif w is not v and w != v:
                    r[k] = w + (v - w) * b
            for k, w in o.m.items():
                if k not in self.m:
                    r[k] = w - w * b
            return Pt(r)

    def __repr__(self):
        return "Pt(" + " + ".join("(%s)·%s" % (v.show(1), show(tm._all[k])) for k, v in sorted(self.m.items())) + ")"


def gen(name):
    return Pt({T("gen", name).id: ONE})


def ptkey(p):
    return tuple(sorted(((k, v) for k, v in p.m.items()), key=lambda x: x[0]))


def pt_iszero(p):
    if not p.m:
        return TRUE
    if len(p.m) == 1:
        (k, v), = p.m.items()
        return iszero(v) if not v.is_const() else bvar(T("ptzero", T("gid", k)))
    return bvar(T("ptzero", ptkey(p)))


def pt_eq(a, b):
    d = a - b
    if not d.m:
        return TRUE
    e = b - a
    ka, kb = ptkey(d), ptkey(e)
    if repr(ka) > repr(kb):
        d = e
    return pt_iszero(d) if len(d.m) > 1 else pt_iszero(d)


# ------------------------------------------------------------------ dispatch on abstract values
RING_TRAITS = ("std::ops::", "fields::Field", "subtle::", "std::cmp::PartialEq", "std::clone::Clone",
               "curves::Curve", "std::convert::From", "std::default::Default", "std::convert::Into")


def is_ring_self(I, c, fr):
    """static self type denotes an abstract field (type parameter / projection / ring type)"""
    if c["st"] is None:
        return None
    st = I.subst(c["st"], fr.env if fr is not None else {})
    while st["k"] == "ref":
        st = I.subst(st["t"], fr.env if fr is not None else {})
    if st["k"] in ("param", "alias"):
        return st
    if st["k"] == "adt" and st["p"] in I.ring:
        return st
    return None


def ring_bin(I, m, a, b):
    if m == "add":
        return a + b
    if m == "sub":
        return a - b
    if m == "mul":
        if "ring.mul" in I.hooks:
            return I.hooks["ring.mul"](a, b)
        return a * b
    raise KeyError(m)


def value_dispatch(I, c, args, fr):
    tr = c["tr"]
    if tr is None and not (c["k"] and c["st"] is not None):
        return NotImplemented
    m = c["m"]
    if args:
        v = args[0]
        if m.endswith("_assign") and tr is not None and tr.startswith("std::ops::") and isinstance(v, Ref):
            v = innermost(I, v) if not (v.path and v.path[-1].__class__ is SymIx) else v
            if v.path and v.path[-1].__class__ is SymIx and v.win is None:
                for cnd, j in v.path[-1].cases(I):
                    ref = Ref(v.cid, v.path[:-1] + (j,))
                    old = I.load(ref)
                    I.invoke(c, [ref] + list(args[1:]), fr, None)
                    I.store(ref, I.ite(cnd, I.load(ref), old))
                return UNIT
            v = args[0]
        x = I.strip(v) if isinstance(v, (Ref, Poly, Pt, Term)) and (not isinstance(v, Ref) or v.win is None) else v
    else:
        x = None
    if isinstance(x, Term) and x.op == "ite" and isinstance(x.args[1], (Poly, Pt)):
        pass
    if isinstance(x, Poly):
        r = poly_method(I, c, m, tr, x, args, fr)
        if r is not NotImplemented:
            return r
    if isinstance(x, Pt):
        r = pt_method(I, c, m, tr, x, args, fr)
        if r is not NotImplemented:
            return r
    h = getattr(x, "method", None)
    if h is not None and not isinstance(x, (Agg, Term, B)):
        r = h(I, c, m, tr, args, fr)
        if r is not NotImplemented:
            return r
    if isinstance(x, (B, bool)) and tr is not None and tr.startswith(("subtle::", "std::ops::", "std::convert", "std::clone")):
        r = choice_method(I, c, m, tr, x, args)
        if r is not NotImplemented:
            return r
    # static methods of abstract fields / curves
    if tr in ("fields::Field", "std::convert::From", "std::default::Default", "subtle::ConditionallySelectable", "curves::Curve") or (
        tr is None and c["st"] is not None
    ):
        st = is_ring_self(I, c, fr)
        if st is not None:
            r = static_ring(I, c, m, tr, args, fr, st)
            if r is not NotImplemented:
                return r
    if tr == "std::convert::Into" and isinstance(x, (B, bool)):
        return x
    return NotImplemented


def dst(I, ref, v):
    I.store(ref, v)
    return UNIT


def innermost(I, ref):
    """last reference in a chain &mut &mut x"""
    n = 0
    while True:
        if ref.path and ref.path[-1].__class__ is SymIx:
            return ref
        v = I.load(ref)
        if isinstance(v, Ref) and v.win is None:
            ref = v
        else:
            return ref
        n += 1
        if n > 20:
            raise Imprecise("ref chain")


def ident(x):
    return x


def poly_method(I, c, m, tr, x, args, fr):
    if tr is None:
        # inherent method on a ring type
        st = I.p.types[c["st"]] if c["st"] is not None else None
        if st is None or st.get("p") not in I.ring:
            return NotImplemented
    if tr in ("std::ops::Add", "std::ops::Sub", "std::ops::Mul") or (
        m in ("add", "sub", "mul") and tr is None
    ):
        y = I.strip(args[1])
        if isinstance(y, Pt) and m == "mul":
            return y.scale(x)
        if not isinstance(y, Poly):
            return I.top("ring." + m, x, y)
        return ring_bin(I, m, x, y)
    if tr in ("std::ops::AddAssign", "std::ops::SubAssign", "std::ops::MulAssign"):
        y = I.strip(args[1])
        r = innermost(I, args[0])
        return dst(I, r, ring_bin(I, m[:3], x, y))
    if m == "neg":
        return -x
    if m == "square":
        return ring_bin(I, "mul", x, x)
    if m == "double" and tr in (None, "fields::Field"):
        return x + x
    if m == "is_zero":
        return iszero(x)
    if m == "invert":
        x = I.hooks.get("ring.norm", ident)(x)
        return Agg(CTO, 0, (inv0(x), bnot(iszero(x))))
    if m == "sqrt":
        h = I.hooks.get("ring.sqrt")
        if h:
            return h(I, x)
        q = T("issq", x)
        s = T("sqrt", x)
        if s.id not in tm.SQRTOF and not x.is_const():
            tm.SQRTOF[s.id] = x
        return Agg(CTO, 0, (P(s), bvar(q)))
    if m in ("ct_eq", "eq") or (m == "ne" and tr == "std::cmp::PartialEq"):
        y = I.strip(args[1])
        if not isinstance(y, Poly):
            return NotImplemented
        r = iszero(x - y)
        return bnot(r) if m == "ne" else r
    if m == "conditional_select":
        y = I.strip(args[1])
        ch = tob(I.strip(args[2]))
        return I.ite(ch, y, x)
    if m == "conditional_assign":
        y = I.strip(args[1])
        ch = tob(I.strip(args[2]))
        return dst(I, innermost(I, args[0]), I.ite(ch, y, x))
    if m == "conditional_negate":
        ch = tob(I.strip(args[1]))
        return dst(I, innermost(I, args[0]), I.ite(ch, -x, x))
    if m in ("clone", "borrow", "as_ref"):
        return x if m == "clone" else args[0]
    if m in ("pow", "pow_vartime"):
        e = [I.resolve(v) for v in I.items(as_slice(I, args[1]))]
        if all(isinstance(v, int) for v in e):
            n = sum(v << (64 * i) for i, v in enumerate(e))
            return powp(I, x, n)
        if tuple(e) == INVALPHA():
            return fifth_root(x)
        return P(T("pow", x, tuple(e)))
    if m == "get_lower_128":
        return T("lower128", x)
    if m == "to_bytes":
        return FBytes(x)
    if m == "from":
        return x if is_ring_self(I, c, fr) is not None else NotImplemented
    if m == "into":
        if len(c["a"]) > 1 and isinstance(c["a"][1], int):
            want = I.subst(c["a"][1], fr.env if fr is not None else {})
            if want["k"] == "adt" and want["p"] not in I.ring:
                return into_dyn(I, c, x, args, fr)
        return x
    if m == "fmt":
        return ok(UNIT)
    return NotImplemented


def INVALPHA():
    return tuple(T("word", "invalpha%d" % i, 64) for i in range(4))


def fifth_root(x):
    t = T("root5", x)
    if t.id not in tm.SQRTOF:
        tm.SQRTOF[t.id] = (5, x)
    return P(t)


class FBytes:
    """canonical byte encoding of a field element / point (32 opaque bytes)"""
    def __init__(self, x, n=32):
        self.x = x
        self.n = n

    def __hash__(self):
        return hash(("fbytes", self.x))

    def __eq__(self, o):
        return isinstance(o, FBytes) and self.x == o.x and self.n == o.n

    def __repr__(self):
        return "bytes(%r)" % (self.x,)

    def proj(self, I, p):
        if p < 0:
            return self
        if p >= self.n:
            raise Diverge("index out of bounds")
        return T("byte", self.x, p)

    def expand(self):
        return tuple(T("byte", self.x, i) for i in range(self.n))

    def upd(self, I, path, x, i):
        v = list(self.expand())
        return I.upd(tuple(v), path, x, i)


def powp(I, x, n):
    if "ring.powall" in I.hooks:
        return I.hooks["ring.powall"](x, n)
    if n <= 64 and len(x.m) <= 3 or n <= 5:
        return x ** n
    h = I.hooks.get("ring.pow")
    if h:
        return h(I, x, n)
    return P(T("pow", x, n))


def pt_method(I, c, m, tr, x, args, fr):
    if tr is None:
        return NotImplemented
    if tr in ("std::ops::Add", "std::ops::Sub"):
        y = I.strip(args[1])
        return x + y if m == "add" else x - y
    if tr == "std::ops::Mul":
        y = I.strip(args[1])
        h = I.hooks.get("pt.scale")
        return h(I, x, y) if h else x.scale(y)
    if tr in ("std::ops::AddAssign", "std::ops::SubAssign", "std::ops::MulAssign"):
        y = I.strip(args[1])
        r = innermost(I, args[0])
        if m == "add_assign":
            return dst(I, r, x + y)
        if m == "sub_assign":
            return dst(I, r, x - y)
        h = I.hooks.get("pt.scale")
        return dst(I, r, h(I, x, y) if h else x.scale(y))
    if m == "neg":
        return -x
    if m == "double":
        return x + x
    if m == "is_zero":
        return pt_iszero(x)
    if m in ("eq", "ct_eq"):
        return pt_eq(x, I.strip(args[1]))
    if m == "ne":
        return bnot(pt_eq(x, I.strip(args[1])))
    if m == "clone":
        return x
    if m == "conditional_select":
        return I.ite(tob(I.strip(args[2])), I.strip(args[1]), x)
    if m == "conditional_assign":
        return dst(I, innermost(I, args[0]), I.ite(tob(I.strip(args[2])), I.strip(args[1]), x))
    if m == "get_xy":
        k = ptkey(x)
        return Agg(CTO, 0, (tup(P(T("ptx", k)), P(T("pty", k))), bnot(pt_iszero(x))))
    if m == "get_xyz":
        k = ptkey(x)
        return tup(P(T("ptX", k)), P(T("ptY", k)), P(T("ptZ", k)))
    if m == "to_bytes":
        return FBytes(x)
    if m == "is_on_curve":
        return TRUE
    if m == "fmt":
        return ok(UNIT)
    return NotImplemented


def choice_method(I, c, m, tr, x, args):
    x = tob(x)
    if m in ("bitand", "bitor", "bitxor"):
        y = tob(I.strip(args[1]))
        return {"bitand": band, "bitor": bor, "bitxor": bxor}[m](x, y)
    if m in ("bitand_assign", "bitor_assign", "bitxor_assign"):
        y = tob(I.strip(args[1]))
        return dst(I, innermost(I, args[0]), {"a": band, "o": bor, "x": bxor}[m[3]](x, y))
    if m == "not":
        return bnot(x)
    if m in ("ct_eq",):
        return beq(x, tob(I.strip(args[1])))
    if m == "conditional_select":
        return bite(tob(I.strip(args[2])), tob(I.strip(args[1])), x)
    if m == "conditional_assign":
        return dst(I, innermost(I, args[0]), bite(tob(I.strip(args[2])), tob(I.strip(args[1])), x))
    if m in ("from", "into"):
        rt = c
        # Field::from(bool) is handled by static_ring; Choice/bool conversions are identities
        if tr == "std::convert::From":
            st = I.p.types[c["st"]]
            if st["k"] == "bool" or st.get("p") == "subtle::Choice":
                return x
            if st["k"] == "int":
                return b2i(x)
            return NotImplemented
        return into_target(I, c, x)
    if m == "clone":
        return x
    return NotImplemented


def into_target(I, c, x, env=None):
    """bool/Choice `.into()`: conversion selected by the target type"""
    for t in c["a"][1:]:
        if isinstance(t, int):
            ty = I.subst(t, env or {})
            if ty["k"] in ("param", "alias") or ty["k"] == "adt" and ty["p"] in I.ring:
                return b2f(x)
            if ty["k"] == "int":
                return b2i(x)
            return x
    return x


def const_poly(v):
    return P(v)


def static_ring(I, c, m, tr, args, fr, st):
    a = c["a"]
    if tr == "curves::Curve" or (tr is None and m in ("zero", "one") and st["s"].split("::")[-1].startswith("Ec")):
        if st["k"] == "adt":
            return NotImplemented
        if m == "zero":
            return Pt({})
        if m == "one":
            return gen("one:" + st["s"])
        if m == "b":
            return P(T("sym", "curve_b"))
        if m in ("from_xy", "from_xy_unchecked"):
            x, y = I.strip(args[0]), I.strip(args[1])
            p = Pt({T("xypt", x, y).id: ONE})
            if m == "from_xy":
                return Agg(CTO, 0, (p, bvar(T("oncurve", x, y))))
            return p
        if m == "from_bytes":
            v = I.strip(args[0])
            if isinstance(v, FBytes) and isinstance(v.x, Pt):
                return Agg(CTO, 0, (v.x, TRUE))
            return Agg(CTO, 0, (Pt({T("ptfrombytes", hashable(I, v)).id: ONE}), bvar(T("ptbytesok", hashable(I, v)))))
        return NotImplemented
    if m == "zero" and not args:
        return ZERO
    if m == "one" and not args:
        return ONE
    if m == "default" and not args:
        if False:
            return NotImplemented
        return ZERO
    if m in ("from_u64", "from_u128", "from"):
        v = I.strip(args[0])
        if isinstance(v, Poly):
            return v
        if isinstance(v, bool):
            return P(int(v))
        if isinstance(v, int):
            return P(v)
        if isinstance(v, B):
            return b2f(v)
        if isinstance(v, Term):
            if v.op in ("bit",):
                return b2f(bvar(v))
            if v.op == "b2i":
                return b2f(v.args[0])
            if v.op == "ite":
                return I.ite(v.args[0], *[static_ring(I, c, m, tr, [x], fr, st) for x in v.args[1:]])
            return wordpoly(v)
        if m == "from":
            return NotImplemented
    if m == "from_bytes" and tr == "fields::Field":
        v = I.strip(args[0])
        if isinstance(v, FBytes) and isinstance(v.x, Poly):
            return Agg(CTO, 0, (v.x, TRUE))
        h = hashable(I, v)
        if isinstance(h, tuple) and all(isinstance(x, int) for x in h):
            n = sum(x << (8 * i) for i, x in enumerate(h))
            if n < 1 << 254:
                return Agg(CTO, 0, (P(n), TRUE))
        return Agg(CTO, 0, (P(T("frombytes", h)), bvar(T("bytesok", h))))
    if m == "from_bytes_wide":
        h = hashable(I, I.strip(args[0]))
        return P(T("frombyteswide", h))
    if m == "conditional_select":
        return NotImplemented
    if m == "batch_invert":
        r = as_slice(I, args[0])
        items = I.items(r)
        prod = ONE
        n = 0
        for i, v in enumerate(items):
            v = I.strip(v)
            z = iszero(v)
            I.store(slice_at(r, i), I.ite(z, v, inv0(v)))
            prod = prod * I.ite(z, ONE, inv0(v))
        return prod
    return NotImplemented


def hashable(I, v):
    if isinstance(v, Ref):
        if v.win is not None:
            return tuple(hashable(I, x) for x in I.items(v))
        return hashable(I, I.load(v))
    if isinstance(v, VecV):
        return tuple(hashable(I, x) for x in I.st.get(v.cid))
    if isinstance(v, (list, tuple)):
        return tuple(hashable(I, x) for x in v)
    if isinstance(v, Agg):
        return (v.ty, v.var) + tuple(hashable(I, x) for x in v.f)
    return v


FIELDNAMES = {"NUM_BITS", "CAPACITY", "S", "ALPHA", "RESCUE_ALPHA", "RESCUE_INVALPHA", "BETA"}


def assoc_const(I, name, st, ty, fr):
    n = name.split("::")[-1]
    h = I.hooks.get(("assocdefault", n))
    if h:
        return h
    if name.startswith("std::mem::SizedTypeProperties::"):
        return 8
    if n == "NUM_BITS":
        return 255
    if n == "CAPACITY":
        return 254
    if n == "S":
        return 32
    if n == "RESCUE_ALPHA":
        return 5
    if n == "RESCUE_INVALPHA":
        return INVALPHA()
    if n in ("ALPHA", "BETA", "BETA_BASE", "BETA_SCALAR"):
        return P(T("kfe", n, st))
    if n == "ONE":
        return T("var", "ONE")
    return T("uneval", name, st)


# ------------------------------------------------------------------ sequences
def as_slice(I, v):
    """view of a reference to Vec / array / slice as a windowed Ref"""
    v = I.resolve(v)
    n = 0
    while True:
        if isinstance(v, Ref):
            if v.win is not None:
                return v
            x = I.load(v)
            if isinstance(x, (tuple, list)):
                return Ref(v.cid, v.path, (0, len(x)))
            if isinstance(x, FBytes):
                e = x.expand()
                return Ref(I.st.new(e), (), (0, len(e)))
            v = x
        elif isinstance(v, VecV):
            content = I.st.get(v.cid)
            if isinstance(content, Term) and content.op == "ite":
                content = I.resolve(content)
            if not isinstance(content, (list, tuple)):
                raise Imprecise("sequence of unknown length: %r" % (content,))
            return Ref(v.cid, (), (0, len(content)))
        elif isinstance(v, (tuple, list)):
            return Ref(I.st.new(v), (), (0, len(v)))
        elif isinstance(v, FBytes):
            e = v.expand()
            return Ref(I.st.new(e), (), (0, len(e)))
        elif isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], (VecV, tuple)):
            v = v.f[0]
        elif isinstance(v, Term) and v.op == "ite":
            a, b = [I.items(as_slice(I, x)) for x in v.args[1:]]
            if len(a) != len(b):
                raise Imprecise("slice of conditional length")
            items = [I.ite(v.args[0], x, y) for x, y in zip(a, b)]
            return Ref(I.st.new(items), (), (0, len(items)))
        else:
            raise Imprecise("not a sequence: %r" % (v,))
        n += 1
        if n > 30:
            raise Imprecise("ref chain")


def slice_at(r, i):
    return Ref(r.cid, r.path + (r.win[0] + i,))


def sub_slice(r, a, n):
    if a < 0 or n < 0 or a + n > r.win[1]:
        raise Diverge("slice out of range")
    return Ref(r.cid, r.path, (r.win[0] + a, n))


def need_int(I, v, what="integer"):
    v = I.resolve(v)
    if isinstance(v, Ref):
        v = I.strip(v)
    if isinstance(v, bool):
        return int(v)
    if not isinstance(v, int):
        raise Imprecise("%s is not constant: %r" % (what, v))
    return v


def range_of(I, v, n):
    """resolve a Range* value to (start, len)"""
    t = v.ty.split("::")[-1]
    if t == "RangeFull":
        return 0, n
    f = [need_int(I, x, "range bound") for x in v.f if not isinstance(x, bool)]
    if t == "Range":
        a, b = f[0], f[1]
    elif t == "RangeFrom":
        a, b = f[0], n
    elif t == "RangeTo":
        a, b = 0, f[0]
    elif t == "RangeInclusive":
        a, b = f[0], f[1] + 1
    elif t == "RangeToInclusive":
        a, b = 0, f[0] + 1
    else:
        raise Imprecise("range " + v.ty)
    if a > b or b > n:
        raise Diverge("slice index out of range")
    return a, b - a


def do_index(I, base, idx, mut=False):
    r = as_slice(I, base)
    idx = I.resolve(idx)
    if isinstance(idx, Agg):
        a, n = range_of(I, idx, r.win[1])
        return sub_slice(r, a, n)
    if isinstance(idx, int):
        if idx >= r.win[1] or idx < 0:
            raise Diverge("index out of bounds")
        return slice_at(r, idx)
    items = tuple(I.items(r))
    I.assumed.add("symbolic-index")
    if mut:
        ix = SymIx(r.win[0], r.win[1], idx)
        rest = I.st.pc
        for i in range(ix.n):
            rest = band(rest, bnot(I.dom.eqconst(I, idx, i)))
        if rest is not FALSE:
            I.panics.append((rest, "panic:index out of bounds", "", I.line))
        return Ref(r.cid, r.path + (ix,))
    if isinstance(idx, Term) and idx.op == "ite":
        a = I.load(do_index(I, base, idx.args[1]))
        b = I.load(do_index(I, base, idx.args[2]))
        return Ref(I.st.new(I.ite(idx.args[0], a, b)))
    v = None
    if isinstance(idx, Term) and idx.op in ("bit", "b2i") and len(items) >= 2:
        cnd = bvar(idx) if idx.op == "bit" else idx.args[0]
        v = I.ite(cnd, items[1], items[0])
    else:
        try:
            v = T("select", items, idx)
        except TypeError:
            v = T("top", "select", I.uniq())
    return Ref(I.st.new(v))


@lib("std::ops::Index::index", "std::ops::IndexMut::index_mut",
     "<std::vec::Vec<T, A> as std::ops::Index<I>>::index",
     "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut")
def _index(I, c, args, fr):
    v = I.strip(args[0])
    if isinstance(v, Agg):
        return NotImplemented
    return do_index(I, args[0], args[1], c is not None and c["m"] == "index_mut")


@lib("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def _get(I, c, args, fr):
    r = as_slice(I, args[0])
    i = I.resolve(args[1])
    if isinstance(i, Agg):
        try:
            a, n = range_of(I, i, r.win[1])
        except Diverge:
            return NONE
        return some(sub_slice(r, a, n))
    i = need_int(I, i, "index")
    return some(slice_at(r, i)) if 0 <= i < r.win[1] else NONE


@lib("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def _deref(I, c, args, fr):
    v = I.strip(args[0])
    if isinstance(v, (VecV, tuple, list)) and not isinstance(v, BoxV):
        return as_slice(I, v if isinstance(v, VecV) else args[0])
    if isinstance(v, Agg):
        return NotImplemented
    return args[0]


@lib("core::slice::<impl [T]>::len", "std::vec::Vec::<T, A>::len", "core::str::<impl str>::len",
     "std::iter::ExactSizeIterator::len")
def _len(I, c, args, fr):
    v = I.resolve(args[0])
    x = I.strip(v) if not (isinstance(v, Ref) and v.win) else v
    if isinstance(x, It):
        return len(drain_count(I, x))
    if isinstance(x, Term) and x.op in ("strlit", "str"):
        return len(x.args[0]) if x.op == "strlit" else T("len", x)
    return as_slice(I, args[0]).win[1]


@lib("core::slice::<impl [T]>::is_empty", "std::vec::Vec::<T, A>::is_empty")
def _is_empty(I, c, args, fr):
    return as_slice(I, args[0]).win[1] == 0


@lib("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def _vecnew(I, c, args, fr):
    return I.vec([])


@lib("std::vec::from_elem")
def _from_elem(I, c, args, fr):
    n = need_int(I, args[1], "length")
    return I.vec([clone(I, args[0]) for _ in range(n)])


def clone(I, v):
    v = I.resolve(v)
    if isinstance(v, BoxV):
        return BoxV(I.st.new(clone(I, I.st.get(v.cid))))
    if isinstance(v, VecV):
        x = I.st.get(v.cid)
        if isinstance(x, list):
            return VecV(I.st.new([clone(I, y) for y in x]))
        return VecV(I.st.new(x))
    if isinstance(v, Agg):
        if any(isinstance(x, (VecV, Agg, tuple)) for x in v.f):
            return Agg(v.ty, v.var, [clone(I, x) for x in v.f])
        return v
    if isinstance(v, tuple):
        return tuple(clone(I, x) for x in v)
    return v


@lib("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned")
def _clone(I, c, args, fr):
    r = I.resolve(args[0])
    if isinstance(r, Ref) and r.win is not None:
        return I.vec([clone(I, x) for x in I.items(r)])
    v = I.load(r) if isinstance(r, Ref) else r
    if isinstance(v, Agg) and c["k"] is None:
        k = I.find_impl(c, args, fr)
        if k is not None:
            return I.call_key(k, args, {})
    return clone(I, v)


@lib("core::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec",
     "alloc::slice::<impl [T]>::to_vec")
def _to_vec(I, c, args, fr):
    return I.vec([clone(I, x) for x in I.items(as_slice(I, args[0]))])


@lib("std::vec::Vec::<T, A>::push")
def _push(I, c, args, fr):
    v = I.strip(args[0])
    if not isinstance(v, VecV):
        raise Imprecise("push on %r" % (v,))
    I.st.lst(v.cid).append(args[1])
    return UNIT


@lib("std::vec::Vec::<T, A>::pop")
def _pop(I, c, args, fr):
    l = I.st.lst(I.strip(args[0]).cid)
    return some(l.pop()) if l else NONE


@lib("std::vec::Vec::<T, A>::insert")
def _insert(I, c, args, fr):
    I.st.lst(I.strip(args[0]).cid).insert(need_int(I, args[1]), args[2])
    return UNIT


@lib("std::vec::Vec::<T, A>::remove")
def _remove(I, c, args, fr):
    return I.st.lst(I.strip(args[0]).cid).pop(need_int(I, args[1]))


@lib("std::vec::Vec::<T, A>::truncate")
def _truncate(I, c, args, fr):
    l = I.st.lst(I.strip(args[0]).cid)
    del l[need_int(I, args[1]):]
    return UNIT


@lib("std::vec::Vec::<T, A>::clear")
def _clear(I, c, args, fr):
    del I.st.lst(I.strip(args[0]).cid)[:]
    return UNIT


@lib("std::vec::Vec::<T, A>::reserve")
def _reserve(I, c, args, fr):
    return UNIT


@lib("std::vec::Vec::<T, A>::resize")
def _resize(I, c, args, fr):
    l = I.st.lst(I.strip(args[0]).cid)
    n = need_int(I, args[1])
    del l[n:]
    while len(l) < n:
        l.append(clone(I, args[2]))
    return UNIT


@lib("std::vec::Vec::<T, A>::extend_from_slice")
def _extend_from_slice(I, c, args, fr):
    items = [clone(I, x) for x in I.items(as_slice(I, args[1]))]
    I.st.lst(I.strip(args[0]).cid).extend(items)
    return UNIT


@lib("std::vec::Vec::<T, A>::append")
def _append(I, c, args, fr):
    o = I.st.lst(I.strip(args[1]).cid)
    items = list(o)
    del o[:]
    I.st.lst(I.strip(args[0]).cid).extend(items)
    return UNIT


@lib("std::vec::Vec::<T, A>::split_off")
def _split_off(I, c, args, fr):
    l = I.st.lst(I.strip(args[0]).cid)
    n = need_int(I, args[1])
    r = l[n:]
    del l[n:]
    return I.vec(r)


@lib("std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice", "core::array::<impl [T; N]>::as_slice",
     "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow")
def _as_slice(I, c, args, fr):
    v = I.strip(args[0])
    if isinstance(v, (VecV, tuple, list, FBytes)) or isinstance(args[0], Ref) and args[0].win:
        return as_slice(I, args[0])
    return NotImplemented


@lib("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last_mut",
     "core::slice::<impl [T]>::first_mut")
def _last(I, c, args, fr):
    r = as_slice(I, args[0])
    n = r.win[1]
    if n == 0:
        return NONE
    return some(slice_at(r, n - 1 if c["m"].startswith("last") else 0))


@lib("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def _split_at(I, c, args, fr):
    r = as_slice(I, args[0])
    k = need_int(I, args[1])
    return tup(sub_slice(r, 0, k), sub_slice(r, k, r.win[1] - k))


@lib("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def _split_first(I, c, args, fr):
    r = as_slice(I, args[0])
    n = r.win[1]
    if n == 0:
        return NONE
    if c["m"] == "split_first":
        return some(tup(slice_at(r, 0), sub_slice(r, 1, n - 1)))
    return some(tup(slice_at(r, n - 1), sub_slice(r, 0, n - 1)))


@lib("core::slice::<impl [T]>::swap")
def _swap(I, c, args, fr):
    r = as_slice(I, args[0])
    a, b = need_int(I, args[1]), need_int(I, args[2])
    if a >= r.win[1] or b >= r.win[1]:
        raise Diverge("swap out of range")
    x, y = I.load(slice_at(r, a)), I.load(slice_at(r, b))
    I.store(slice_at(r, a), y)
    I.store(slice_at(r, b), x)
    return UNIT


@lib("core::slice::<impl [T]>::reverse")
def _reverse(I, c, args, fr):
    r = as_slice(I, args[0])
    items = I.items(r)[::-1]
    for i, v in enumerate(items):
        I.store(slice_at(r, i), v)
    return UNIT


@lib("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def _copy_from(I, c, args, fr):
    r = as_slice(I, args[0])
    items = [clone(I, x) for x in I.items(as_slice(I, args[1]))]
    if len(items) != r.win[1]:
        raise Diverge("copy_from_slice length mismatch")
    for i, v in enumerate(items):
        I.store(slice_at(r, i), v)
    return UNIT


@lib("core::slice::<impl [T]>::fill")
def _fill(I, c, args, fr):
    r = as_slice(I, args[0])
    for i in range(r.win[1]):
        I.store(slice_at(r, i), clone(I, args[1]))
    return UNIT


@lib("core::slice::<impl [T]>::rotate_left", "core::slice::<impl [T]>::rotate_right")
def _rotate(I, c, args, fr):
    r = as_slice(I, args[0])
    n = need_int(I, args[1])
    items = I.items(r)
    n = n if c["m"] == "rotate_left" else len(items) - n
    items = items[n:] + items[:n]
    for i, v in enumerate(items):
        I.store(slice_at(r, i), v)
    return UNIT


@lib("core::slice::<impl [T]>::concat", "std::slice::<impl [T]>::concat")
def _concat(I, c, args, fr):
    out = []
    for x in I.items(as_slice(I, args[0])):
        out += [clone(I, y) for y in I.items(as_slice(I, x))]
    return I.vec(out)


@lib("core::slice::<impl [T]>::contains")
def _contains(I, c, args, fr):
    r = FALSE
    for x in I.items(as_slice(I, args[0])):
        r = bor(r, equal(I, x, args[1]))
    return r


# ------------------------------------------------------------------ equality on aggregates
def equal(I, a, b):
    a, b = I.strip(a), I.strip(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return iszero(a - b)
    if isinstance(a, Pt) and isinstance(b, Pt):
        return pt_eq(a, b)
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return beq(tob(a), tob(b))
    if isinstance(a, int) and isinstance(b, int):
        return TRUE if a == b else FALSE
    if isinstance(a, FBytes) and isinstance(b, FBytes):
        return equal(I, a.x, b.x)
    if isinstance(a, (VecV, tuple, list)) or isinstance(a, Ref):
        x, y = I.items(as_slice(I, a)), I.items(as_slice(I, b))
        if len(x) != len(y):
            return FALSE
        r = TRUE
        for p, q in zip(x, y):
            r = band(r, equal(I, p, q))
        return r
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.var != b.var:
            return FALSE
        r = TRUE
        for p, q in zip(a.f, b.f):
            r = band(r, equal(I, p, q))
        return r
    if hasattr(I.dom, "z") and (isinstance(a, I.dom.word) or isinstance(b, I.dom.word)):
        return tob(I.dom.eq(I.dom.z(a), I.dom.z(b)))
    if isinstance(a, Term) and a.op == "ite":
        return bite(a.args[0], equal(I, a.args[1], b), equal(I, a.args[2], b))
    if isinstance(b, Term) and b.op == "ite":
        return equal(I, b, a)
    if isinstance(a, (Term, int)) and isinstance(b, (Term, int)):
        return tob(I.dom.binop(I, "Eq", a, b, 64, 0))
    raise Imprecise("equality of %r and %r" % (type(a), type(b)))


@lib("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _eq(I, c, args, fr):
    a = I.strip(args[0])
    if isinstance(a, Agg) and not a.ty.startswith(("std::", "tuple")) and c["k"] is None:
        k = I.find_impl(c, args, fr)
        if k is not None:
            return I.call_key(k, args, {})
    if isinstance(a, Agg) and a.ty in (OPT, RES, "tuple", "()"):
        # element equality may be user-defined: only structural components reach here
        pass
    r = equal(I, args[0], args[1])
    return bnot(r) if c["m"] == "ne" else r


@lib("subtle::ConstantTimeEq::ct_eq")
def _cteq(I, c, args, fr):
    return equal(I, args[0], args[1])


def minmax(I, a, b, ge):
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b) if ge else min(a, b)
    l = I.dom.binop(I, "Lt", a, b, 64, 0)
    return I.ite(l, b, a) if ge else I.ite(l, a, b)


@lib("std::cmp::Ord::max", "std::cmp::max")
def _max(I, c, args, fr):
    return minmax(I, args[0], args[1], True)


@lib("std::cmp::Ord::min", "std::cmp::min")
def _min(I, c, args, fr):
    return minmax(I, args[0], args[1], False)


@lib("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::ge")
def _cmp(I, c, args, fr):
    a, b = I.strip(args[0]), I.strip(args[1])
    op = {"lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge"}[c["m"]]
    return I.binop(op, a, b, {"k": "int", "bits": 64, "sg": 0})


# ------------------------------------------------------------------ integers
def bits_of(I, c):
    st = I.p.types[c["st"]] if c["st"] is not None else None
    if st is None or st["k"] != "int":
        p = c["p"]
        for n in ("u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64", "i128", "isize", "i8", "i16"):
            if "<impl %s>" % n in p:
                return {"usize": 64, "isize": 64}.get(n) or int(n[1:]), n[0] == "i"
        return 64, False
    return st["bits"], bool(st["sg"])


def int_method(name):
    ws = ("u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64")
    return ["core::num::<impl %s>::%s" % (w, name) for w in ws]


@lib(*(int_method("wrapping_add") + int_method("wrapping_sub") + int_method("wrapping_mul")))
def _wrapping(I, c, args, fr):
    b, s = bits_of(I, c)
    op = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul"}[c["m"]]
    return I.binop(op, args[0], args[1], {"k": "int", "bits": b, "sg": int(s)})


@lib(*(int_method("wrapping_neg")))
def _wneg(I, c, args, fr):
    b, s = bits_of(I, c)
    return I.binop("Sub", 0, args[0], {"k": "int", "bits": b, "sg": int(s)})


@lib(*(int_method("overflowing_add") + int_method("overflowing_sub") + int_method("overflowing_mul")))
def _overflowing(I, c, args, fr):
    b, s = bits_of(I, c)
    op = {"a": "AddWithOverflow", "s": "SubWithOverflow", "m": "MulWithOverflow"}[c["m"][12]]
    return I.binop(op, args[0], args[1], {"k": "int", "bits": b, "sg": int(s)})


@lib(*(int_method("wrapping_shl") + int_method("wrapping_shr")))
def _wshift(I, c, args, fr):
    b, s = bits_of(I, c)
    return I.binop("Shl" if c["m"].endswith("l") else "Shr", args[0], args[1], {"k": "int", "bits": b, "sg": int(s)})


@lib(*(int_method("rotate_right") + int_method("rotate_left")))
def _rot(I, c, args, fr):
    b, s = bits_of(I, c)
    n = need_int(I, args[1]) % b
    if c["m"] == "rotate_left":
        n = (b - n) % b
    v = I.resolve(args[0])
    if n == 0:
        return v
    if isinstance(v, int):
        return ((v >> n) | (v << (b - n))) & mask(b)
    if isinstance(v, Term) and v.op == "rotr":
        n = (n + v.args[1]) % b
        return T("rotr", v.args[0], n, b) if n else v.args[0]
    return T("rotr", v, n, b)


@lib(*(int_method("pow")))
def _ipow(I, c, args, fr):
    b, s = bits_of(I, c)
    r = need_int(I, args[0]) ** need_int(I, args[1])
    if r >> b:
        raise Diverge("overflow")
    return r


@lib(*(int_method("trailing_zeros") + int_method("leading_zeros") + int_method("count_ones") + int_method("is_power_of_two") + int_method("next_power_of_two") + int_method("ilog2")))
def _bitcount(I, c, args, fr):
    b, s = bits_of(I, c)
    v = need_int(I, args[0])
    m = c["m"]
    if m == "trailing_zeros":
        return (v & -v).bit_length() - 1 if v else b
    if m == "leading_zeros":
        return b - v.bit_length()
    if m == "count_ones":
        return bin(v).count("1")
    if m == "is_power_of_two":
        return v > 0 and v & (v - 1) == 0
    if m == "ilog2":
        return v.bit_length() - 1
    r = 1
    while r < v:
        r *= 2
    return r


@lib(*(int_method("swap_bytes") + int_method("to_be") + int_method("from_be")))
def _swapb(I, c, args, fr):
    raise Imprecise("swap_bytes")


@lib(*(int_method("saturating_sub") + int_method("checked_sub") + int_method("checked_add") + int_method("checked_mul") + int_method("div_ceil") + int_method("abs_diff")))
def _sat(I, c, args, fr):
    b, s = bits_of(I, c)
    x, y = need_int(I, args[0]), need_int(I, args[1])
    m = c["m"]
    if m == "saturating_sub":
        return max(0, x - y)
    if m == "div_ceil":
        return -(-x // y)
    if m == "abs_diff":
        return abs(x - y)
    r = x - y if m == "checked_sub" else x + y if m == "checked_add" else x * y
    return some(r) if 0 <= r < (1 << b) else NONE


def bytes_to_word(I, bs, w):
    """little-endian bytes -> word value"""
    if all(isinstance(x, int) for x in bs):
        return sum(x << (8 * i) for i, x in enumerate(bs))
    b0 = bs[0]
    if isinstance(b0, Term) and b0.op == "byte":
        base, off = b0.args
        if off % len(bs) == 0 and all(
            isinstance(x, Term) and x.op == "byte" and x.args[0] == base and x.args[1] == off + i
            for i, x in enumerate(bs)
        ):
            return T("wordof", base, off // len(bs), w)
    if isinstance(b0, Term) and b0.op == "lebyte":
        base, off = b0.args
        if off == 0 and all(isinstance(x, Term) and x.op == "lebyte" and x.args == (base, i) for i, x in enumerate(bs)):
            return base
    h = I.hooks.get("bytes_to_word")
    if h:
        return h(I, bs, w)
    return T("wide", 8, *bs)


def word_to_bytes(I, v, n):
    if isinstance(v, int):
        return [(v >> (8 * i)) & 255 for i in range(n)]
    if isinstance(v, Term) and v.op == "wordof":
        base, k, w = v.args
        return [T("byte", base, k * n + i) for i in range(n)]
    if isinstance(v, Term) and v.op == "wide" and v.args[0] == 8 and len(v.args) == n + 1:
        return list(v.args[1:])
    h = I.hooks.get("word_to_bytes")
    if h:
        return h(I, v, n)
    return [T("lebyte", v, i) for i in range(n)]


@lib("byteorder::ByteOrder::read_u64", "byteorder::ByteOrder::read_u32", "byteorder::ByteOrder::read_u128",
     "byteorder::ByteOrder::read_u16")
def _read(I, c, args, fr):
    n = {"read_u64": 8, "read_u32": 4, "read_u128": 16, "read_u16": 2}[c["m"]]
    it = I.items(as_slice(I, args[0]))
    if len(it) < n:
        raise Diverge("read past end")
    bs = [I.resolve(x) for x in it[:n]]
    if "BigEndian" in I.p.types[c["st"]]["s"]:
        bs = bs[::-1]
    return bytes_to_word(I, bs, 8 * n)


@lib("byteorder::ByteOrder::write_u64", "byteorder::ByteOrder::write_u32", "byteorder::ByteOrder::write_u128")
def _write(I, c, args, fr):
    n = {"write_u64": 8, "write_u32": 4, "write_u128": 16}[c["m"]]
    r = as_slice(I, args[0])
    if r.win[1] < n:
        raise Diverge("write past end")
    bs = word_to_bytes(I, I.resolve(args[1]), n)
    if "BigEndian" in I.p.types[c["st"]]["s"]:
        bs = bs[::-1]
    for i, b in enumerate(bs):
        I.store(slice_at(r, i), b)
    return UNIT


@lib(*(int_method("to_le_bytes") + int_method("to_be_bytes")))
def _to_le(I, c, args, fr):
    b, s = bits_of(I, c)
    bs = word_to_bytes(I, I.resolve(args[0]), b // 8)
    return tuple(bs[::-1] if c["m"] == "to_be_bytes" else bs)


@lib(*(int_method("from_le_bytes") + int_method("from_be_bytes")))
def _from_le(I, c, args, fr):
    v = I.resolve(args[0])
    if isinstance(v, FBytes):
        v = v.expand()
    bs = [I.resolve(x) for x in v]
    if c["m"] == "from_be_bytes":
        bs = bs[::-1]
    return bytes_to_word(I, bs, 8 * len(bs))


@lib("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def _try_into(I, c, args, fr):
    v = I.resolve(args[0])
    if isinstance(v, Ref) and v.win is not None:
        return ok(tuple(I.items(v)))
    if isinstance(v, VecV):
        return ok(tuple(I.items(as_slice(I, v))))
    return ok(v)


@lib("std::convert::From::from", "std::convert::Into::into")
def _from(I, c, args, fr):
    v = I.resolve(args[0])
    st = I.subst(c["st"], fr.env if fr is not None else {}) if c["st"] is not None else None
    if isinstance(v, Agg) and v.ty == CTO:
        to = I.subst(c["a"][1], fr.env if fr is not None else {}) if c["m"] == "into" and len(c["a"]) > 1 and isinstance(c["a"][1], int) else st
        if to is not None and to.get("p") == OPT:
            return I.ite(tob(v.f[1]), some(v.f[0]), NONE)
    if c["m"] == "into" and isinstance(v, Term) and v.op in ("strlit", "str"):
        return v
    if c["m"] == "into" and isinstance(v, (int, Term, I.dom.word)) and not isinstance(v, bool) and len(c["a"]) > 1 and isinstance(c["a"][1], int):
        if I.subst(c["a"][1], fr.env if fr is not None else {}).get("p") == "subtle::Choice":
            if isinstance(v, I.dom.word):
                return tob(I.dom.eqconst(I, v, 1))
            if isinstance(v, Term):
                return tob_bit(I, v)
            if v not in (0, 1):
                raise Diverge("Choice::from")
            return TRUE if v else FALSE
    if st is not None and st["k"] == "int":
        if isinstance(v, (bool, B)):
            return b2i(tob(v))
        return v
    if st is not None and (st["k"] == "bool" or st.get("p") == "subtle::Choice"):
        if isinstance(v, (bool, B)):
            return tob(v)
        if isinstance(v, int):
            if v not in (0, 1):
                raise Diverge("Choice::from")
            return TRUE if v else FALSE
        if isinstance(v, Term):
            return tob_bit(I, v)
        if isinstance(v, I.dom.word):
            one = tob(I.dom.eqconst(I, v, 1))
            bad = bnot(bor(one, tob(I.dom.eqconst(I, v, 0))))
            if v.hi > 1 and band(I.st.pc, bad) is not FALSE:
                I.panics.append((band(I.st.pc, bad), "Choice::from of a value other than 0 or 1", I.callstack[-1] if I.callstack else "?", 0))
            return one
    if c["k"] is None and isinstance(v, (bool, B, int, Poly)) and c["m"] == "into":
        return v
    if isinstance(v, Ref) and v.win is not None and st is not None and st.get("p") in ("std::vec::Vec", "alloc::vec::Vec"):
        return I.vec([clone(I, x) for x in I.items(v)])
    if isinstance(v, tuple) and st is not None and st.get("p") in ("std::vec::Vec", "alloc::vec::Vec"):
        return I.vec(v)
    if c["k"] is None and c["tr"] == "std::convert::Into" and isinstance(v, (Agg, Term)):
        return into_dyn(I, c, v, args, fr)
    return NotImplemented


def into_dyn(I, c, v, args, fr):
    """T: Into<U> in generic code: look for a From impl accepting this value"""
    if isinstance(v, Agg):
        for st, path in I.p.impls.get(("std::convert::From", "from"), []):
            for k in I.p.bykey.get(path, []):
                b = I.p.bodies[k]
                t = I.p.types[b["locals"][1]]
                if t["k"] == "adt" and t["p"] == v.ty and len(c["a"]) > 1:
                    want = I.subst(c["a"][1], fr.env if fr is not None else {})
                    if want["k"] == "adt" and head(st) == want["p"]:
                        return I.call_key(k, args, {})
    if isinstance(v, Poly):
        want = I.subst(c["a"][1], fr.env if fr is not None else {})
        for st, path in I.p.impls.get(("std::convert::From", "from"), []):
            if want["k"] != "adt" or head(st) != want["p"]:
                continue
            for k in I.p.bykey.get(path, []):
                t = I.p.types[I.p.bodies[k]["locals"][1]]
                if t["k"] in ("param", "alias") or t["k"] == "adt" and t["p"] in I.ring:
                    return I.call_key(k, args, {})
        raise Imprecise("conversion of a field element into " + want["s"])
    return v


def tob_bit(I, v):
    if v.op == "b2i":
        return v.args[0]
    if v.op == "bit":
        return bvar(v)
    if v.op == "ite":
        return bite(v.args[0], tob_any(I, v.args[1]), tob_any(I, v.args[2]))
    try:
        if all(bitof(v, i) is FALSE for i in range(1, 8)):
            return bitof(v, 0)
    except (TypeError, AttributeError, Imprecise):
        pass
    return bvar(T("tobool", v))


def tob_any(I, v):
    if isinstance(v, Term):
        return tob_bit(I, v)
    return tob(v)


# ------------------------------------------------------------------ subtle
@lib("subtle::Choice::unwrap_u8")
def _unwrap_u8(I, c, args, fr):
    return b2i(tob(I.strip(args[0])))


@lib("subtle::CtOption::<T>::new")
def _ctnew(I, c, args, fr):
    return Agg(CTO, 0, (args[0], tob(I.strip(args[1]))))


def ctopt(I, v):
    v = I.strip(v)
    if isinstance(v, Agg) and v.ty == CTO:
        return v
    if isinstance(v, Term) and v.op == "ite":
        a, b = ctopt(I, v.args[1]), ctopt(I, v.args[2])
        return Agg(CTO, 0, (I.ite(v.args[0], a.f[0], b.f[0]), bite(v.args[0], a.f[1], b.f[1])))
    raise Imprecise("CtOption %r" % (v,))


@lib("subtle::CtOption::<T>::is_some")
def _ctsome(I, c, args, fr):
    return tob(ctopt(I, args[0]).f[1])


@lib("subtle::CtOption::<T>::is_none")
def _ctnone(I, c, args, fr):
    return bnot(tob(ctopt(I, args[0]).f[1]))


@lib("subtle::CtOption::<T>::unwrap", "subtle::CtOption::<T>::expect")
def _ctunwrap(I, c, args, fr):
    v = ctopt(I, args[0])
    s = tob(v.f[1])
    if band(I.st.pc, s) is FALSE:
        raise Diverge("unwrap of none")
    if not implies(I.st.pc, s):
        I.panics.append((band(I.st.pc, bnot(s)), "CtOption::unwrap", I.callstack[-1] if I.callstack else "?", 0))
        h = I.hooks.get("on_unwrap")
        if h:
            h(I, v, s)
        if not getattr(I, "no_pc_refine", False):
            I.st.pc = band(I.st.pc, s)
    return I.resolve(v.f[0])


@lib("subtle::CtOption::<T>::unwrap_or", "subtle::CtOption::<T>::unwrap_or_else")
def _ctunwrap_or(I, c, args, fr):
    v = ctopt(I, args[0])
    d = args[1] if c["m"] == "unwrap_or" else I.call_value(args[1], [])
    return I.ite(tob(v.f[1]), v.f[0], d)


@lib("subtle::<impl std::convert::From<subtle::CtOption<T>> for std::option::Option<T>>::from")
def _ctoption(I, c, args, fr):
    v = ctopt(I, args[0])
    return I.ite(tob(v.f[1]), some(v.f[0]), NONE)


@lib("subtle::CtOption::<T>::map")
def _ctmap(I, c, args, fr):
    v = ctopt(I, args[0])
    return Agg(CTO, 0, (I.call_value(args[1], [v.f[0]]), v.f[1]))


@lib("subtle::CtOption::<T>::and_then")
def _ctandthen(I, c, args, fr):
    v = ctopt(I, args[0])
    r = ctopt(I, I.call_value(args[1], [v.f[0]]))
    return Agg(CTO, 0, (r.f[0], band(tob(v.f[1]), tob(r.f[1]))))


@lib("subtle::CtOption::<T>::or_else")
def _ctorelse(I, c, args, fr):
    v = ctopt(I, args[0])
    o = ctopt(I, I.call_value(args[1], []))
    s = tob(v.f[1])
    return Agg(CTO, 0, (I.ite(s, v.f[0], o.f[0]), bor(s, tob(o.f[1]))))


@lib("subtle::ConditionallySelectable::conditional_select")
def _cs(I, c, args, fr):
    a, b = I.strip(args[0]), I.strip(args[1])
    ch = tob(I.strip(args[2]))
    if isinstance(a, (int, Term, I.dom.word)) or isinstance(a, (Agg, tuple)) and (c["k"] is None):
        if isinstance(a, Agg) and a.ty != CTO:
            k = I.find_impl(c, args, fr)
            if k is not None:
                return I.call_key(k, args, {})
        return I.ite(ch, b, a)
    return NotImplemented


@lib("subtle::ConditionallySelectable::conditional_assign")
def _ca(I, c, args, fr):
    a, b = I.strip(args[0]), I.strip(args[1])
    ch = tob(I.strip(args[2]))
    if isinstance(a, Agg):
        c2 = dict(c)
        c2["m"] = "conditional_select"
        k = I.find_impl(c2, args, fr)
        if k is not None:
            r = I.call_key(k, [args[0], args[1], ch], {})
            I.store(innermost(I, args[0]), r)
            return UNIT
    I.store(innermost(I, args[0]), I.ite(ch, b, a))
    return UNIT


@lib("subtle::ConditionallySelectable::conditional_swap")
def _cswap(I, c, args, fr):
    ch = tob(I.strip(args[2]))
    ra, rb = innermost(I, args[0]), innermost(I, args[1])
    a, b = I.load(ra), I.load(rb)
    I.store(ra, I.ite(ch, b, a))
    I.store(rb, I.ite(ch, a, b))
    return UNIT


@lib("subtle::ConditionallyNegatable::conditional_negate")
def _cn(I, c, args, fr):
    r = innermost(I, args[0])
    a = I.load(r)
    if isinstance(a, Agg):
        for st, path in I.p.impls.get(("std::ops::Neg", "neg"), []):
            if head(st) == a.ty:
                for k in I.p.bykey.get(path, []):
                    t = I.p.types[I.p.bodies[k]["locals"][1]]
                    n = I.call_key(k, [a if t["k"] != "ref" else r], {})
                    I.store(r, I.ite(tob(I.strip(args[1])), n, a))
                    return UNIT
    return NotImplemented


# ------------------------------------------------------------------ Option / Result
def optval(I, v):
    v = I.resolve(v)
    if isinstance(v, Ref):
        v = I.strip(v)
    if isinstance(v, Agg):
        return v
    return None


@lib("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect")
def _ounwrap(I, c, args, fr):
    return unwrap_variant(I, args[0], 1, "Option::unwrap")


@lib("std::result::Result::<T, E>::unwrap", "std::result::Result::<T, E>::expect")
def _runwrap(I, c, args, fr):
    return unwrap_variant(I, args[0], 0, "Result::unwrap")


def unwrap_variant(I, v, var, why):
    v = I.resolve(v)
    if isinstance(v, Agg):
        if v.var != var:
            raise Diverge(why)
        return v.f[0]
    if isinstance(v, Term) and v.op == "ite":
        c, a, b = v.args
        pc = I.st.pc
        ga, gb = good(I, a, var), good(I, b, var)
        if not ga and not gb:
            raise Diverge(why)
        if not ga or not gb:
            keep = c if ga else bnot(c)
            I.panics.append((band(pc, bnot(keep)), why, I.callstack[-1] if I.callstack else "?", 0))
            I.st.pc = band(pc, keep)
            return unwrap_variant(I, a if ga else b, var, why)
        return I.ite(c, unwrap_variant(I, a, var, why), unwrap_variant(I, b, var, why))
    I.panics.append((I.st.pc, why, I.callstack[-1] if I.callstack else "?", 0))
    return T("as", v, var) if not isinstance(v, Term) else T("fld", T("as", v, var), 0)


def good(I, v, var):
    v = I.resolve(v)
    if isinstance(v, Agg):
        return v.var == var
    if isinstance(v, Term) and v.op == "ite":
        return good(I, v.args[1], var) or good(I, v.args[2], var)
    return True


def sum_map(I, v, f):
    """apply f to each alternative Agg of a sum value, under the alternative's condition"""
    v = I.resolve(v)
    if isinstance(v, Agg):
        return f(v)
    if isinstance(v, Term) and v.op == "ite":
        c, a, b = v.args
        pc0 = I.st.pc
        outs = []
        for cond, x in ((c, a), (bnot(c), b)):
            I.st.layers.append({})
            I.st.ev.append([])
            I.st.pc = band(pc0, cond)
            try:
                r = sum_map(I, x, f)
            finally:
                lay = I.st.layers.pop()
                ev = I.st.ev.pop()
                I.st.pc = pc0
            outs.append((r, lay, ev))
        if outs[0][2] == outs[1][2]:
            I.st.ev[-1].extend(outs[0][2])
        else:
            I.st.ev[-1].append(("branch", I.callstack[-1] if I.callstack else "?", 0, [(c, outs[0][2]), (bnot(c), outs[1][2])]))
        keys = set(outs[0][1]) | set(outs[1][1])
        top = I.st.layers[-1]
        for k in sorted(keys):
            l0, l1 = outs[0][1], outs[1][1]
            if k in l0 and k in l1:
                x, y = l0[k], l1[k]
                top[k] = I.ite(c, x, y) if x is not UNINIT and y is not UNINIT else (x if y is UNINIT else y)
            elif k in l0:
                y = I.st.get(k)
                top[k] = l0[k] if y is UNINIT else I.ite(c, l0[k], y)
            else:
                y = I.st.get(k)
                top[k] = l1[k] if y is UNINIT else I.ite(c, y, l1[k])
        return I.ite(c, outs[0][0], outs[1][0])
    raise Imprecise("sum value %r" % (v,))


def optlib(name, var, fn):
    def h(I, c, args, fr):
        x = args[0]
        while isinstance(x, Ref):
            x = I.load(x)
        return sum_map(I, x, lambda v: fn(I, v, args, fr))

    LIB[name] = h


O = "std::option::Option::<T>::"
R = "std::result::Result::<T, E>::"
optlib(O + "is_some", 1, lambda I, v, a, fr: v.var == 1)
optlib(O + "is_none", 1, lambda I, v, a, fr: v.var == 0)
optlib(O + "map", 1, lambda I, v, a, fr: some(I.call_value(a[1], [v.f[0]])) if v.var == 1 else NONE)
optlib(O + "and_then", 1, lambda I, v, a, fr: I.call_value(a[1], [v.f[0]]) if v.var == 1 else NONE)
optlib(O + "and", 1, lambda I, v, a, fr: a[1] if v.var == 1 else NONE)
optlib(O + "or", 1, lambda I, v, a, fr: v if v.var == 1 else a[1])
optlib(O + "or_else", 1, lambda I, v, a, fr: v if v.var == 1 else I.call_value(a[1], []))
optlib(O + "ok_or", 1, lambda I, v, a, fr: ok(v.f[0]) if v.var == 1 else err(a[1]))
optlib(O + "ok_or_else", 1, lambda I, v, a, fr: ok(v.f[0]) if v.var == 1 else err(I.call_value(a[1], [])))
optlib(O + "unwrap_or", 1, lambda I, v, a, fr: v.f[0] if v.var == 1 else a[1])
optlib(O + "unwrap_or_else", 1, lambda I, v, a, fr: v.f[0] if v.var == 1 else I.call_value(a[1], []))
optlib(O + "map_or", 1, lambda I, v, a, fr: I.call_value(a[2], [v.f[0]]) if v.var == 1 else a[1])
optlib(O + "map_or_else", 1, lambda I, v, a, fr: I.call_value(a[2], [v.f[0]]) if v.var == 1 else I.call_value(a[1], []))
optlib(O + "filter", 1, lambda I, v, a, fr: I.ite(tob(I.call_value(a[1], [I.ref(v.f[0])])), v, NONE) if v.var == 1 else NONE)
optlib(O + "is_some_and", 1, lambda I, v, a, fr: I.call_value(a[1], [v.f[0]]) if v.var == 1 else False)
optlib(O + "zip", 1, lambda I, v, a, fr: sum_map(I, a[1], lambda w: some(tup(v.f[0], w.f[0])) if w.var == 1 else NONE) if v.var == 1 else NONE)
optlib(R + "ok", 0, lambda I, v, a, fr: some(v.f[0]) if v.var == 0 else NONE)
optlib(R + "err", 0, lambda I, v, a, fr: some(v.f[0]) if v.var == 1 else NONE)
optlib(R + "is_ok", 0, lambda I, v, a, fr: v.var == 0)
optlib(R + "is_err", 0, lambda I, v, a, fr: v.var == 1)
optlib(R + "map", 0, lambda I, v, a, fr: ok(I.call_value(a[1], [v.f[0]])) if v.var == 0 else v)
optlib(R + "map_err", 0, lambda I, v, a, fr: v if v.var == 0 else err(I.call_value(a[1], [v.f[0]])))
optlib(R + "and_then", 0, lambda I, v, a, fr: I.call_value(a[1], [v.f[0]]) if v.var == 0 else v)
optlib(R + "or_else", 0, lambda I, v, a, fr: v if v.var == 0 else I.call_value(a[1], [v.f[0]]))
optlib(R + "unwrap_or", 0, lambda I, v, a, fr: v.f[0] if v.var == 0 else a[1])
optlib(R + "unwrap_or_else", 0, lambda I, v, a, fr: v.f[0] if v.var == 0 else I.call_value(a[1], [v.f[0]]))


@lib(O + "as_ref", O + "as_mut", R + "as_ref", R + "as_mut", O + "as_deref")
def _oasref(I, c, args, fr):
    r = args[0]
    v = I.load(r)

    def f(x):
        if not x.f or x.f[0] is UNINIT:
            return x
        return Agg(x.ty, x.var, (Ref(r.cid, r.path + (-1 - x.var, 0)),))

    v = I.resolve(v)
    if isinstance(v, Agg):
        return f(v)
    if isinstance(v, Term) and v.op == "ite":
        def g(x):
            x = I.resolve(x)
            if isinstance(x, Agg):
                return Agg(x.ty, x.var, [I.ref(y) for y in x.f])
            return I.ite(x.args[0], g(x.args[1]), g(x.args[2]))
        return g(v)
    raise Imprecise("as_ref of %r" % (v,))


@lib(O + "take", "std::mem::take")
def _otake(I, c, args, fr):
    v = I.load(args[0])
    if isinstance(v, Agg) and v.ty == OPT:
        I.store(args[0], NONE)
    elif isinstance(v, VecV):
        I.store(args[0], I.vec([]))
    elif isinstance(v, Poly):
        I.store(args[0], ZERO)
    else:
        raise Imprecise("take")
    return v


@lib(O + "replace", "std::mem::replace")
def _replace(I, c, args, fr):
    v = I.load(args[0])
    I.store(args[0], args[1] if c["m"] == "replace" and c["p"].startswith("std::mem") else some(args[1]))
    return v


@lib("std::mem::swap")
def _mswap(I, c, args, fr):
    a, b = I.load(args[0]), I.load(args[1])
    I.store(args[0], b)
    I.store(args[1], a)
    return UNIT


@lib(O + "cloned", O + "copied")
def _ocloned(I, c, args, fr):
    return sum_map(I, args[0], lambda v: some(clone(I, I.load(v.f[0]) if isinstance(v.f[0], Ref) else v.f[0])) if v.var == 1 else NONE)


@lib("std::ops::Try::branch")
def _try_branch(I, c, args, fr):
    CF = "std::ops::ControlFlow"

    def f(v):
        if v.ty == RES:
            return Agg(CF, 0, (v.f[0],)) if v.var == 0 else Agg(CF, 1, (err(v.f[0]),))
        if v.ty == OPT:
            return Agg(CF, 0, (v.f[0],)) if v.var == 1 else Agg(CF, 1, (NONE,))
        raise Imprecise("try on " + v.ty)

    v = I.resolve(args[0])
    if isinstance(v, Agg):
        return f(v)
    if isinstance(v, Term) and v.op == "ite":
        return sum_map(I, v, f)
    if isinstance(v, Term):
        cnd = bvar(T("isok", v))
        I.st.emit(("maybe_err", v))
        return I.ite(cnd, Agg(CF, 0, (T("fld", T("as", v, 0), 0),)), Agg(CF, 1, (err(T("fld", T("as", v, 1), 0)),)))
    raise Imprecise("try on %r" % (v,))


@lib("std::ops::FromResidual::from_residual")
def _from_residual(I, c, args, fr):
    v = I.resolve(args[0])
    return v


# ------------------------------------------------------------------ iterators
END = object()


class It:
    """immutable iterator value"""
    def nxt(self, I):
        raise NotImplementedError

    def __eq__(self, o):
        return self is o or type(self) is type(o) and vars(self) == vars(o)

    def __hash__(self):
        return hash(type(self).__name__)

    def back(self, I):
        raise Imprecise("next_back on " + type(self).__name__)


class SeqIt(It):
    """over element references of a slice"""
    def __init__(self, r, lo, hi):
        self.r, self.lo, self.hi = r, lo, hi

    def nxt(self, I):
        if self.lo >= self.hi:
            return self, END
        return SeqIt(self.r, self.lo + 1, self.hi), slice_at(self.r, self.lo)

    def back(self, I):
        if self.lo >= self.hi:
            return self, END
        return SeqIt(self.r, self.lo, self.hi - 1), slice_at(self.r, self.hi - 1)


class ListIt(It):
    def __init__(self, l, lo=0, hi=None):
        self.l, self.lo = l, lo
        self.hi = len(l) if hi is None else hi

    def nxt(self, I):
        if self.lo >= self.hi:
            return self, END
        return ListIt(self.l, self.lo + 1, self.hi), self.l[self.lo]

    def back(self, I):
        if self.lo >= self.hi:
            return self, END
        return ListIt(self.l, self.lo, self.hi - 1), self.l[self.hi - 1]


class RangeIt(It):
    def __init__(self, a, b):
        self.a, self.b = a, b  # b None: unbounded

    def nxt(self, I):
        if self.b is not None and self.a >= self.b:
            return self, END
        return RangeIt(self.a + 1, self.b), self.a

    def back(self, I):
        if self.a >= self.b:
            return self, END
        return RangeIt(self.a, self.b - 1), self.b - 1


class RepeatIt(It):
    def __init__(self, v):
        self.v = v

    def nxt(self, I):
        return self, self.v


class CycleIt(It):
    def __init__(self, orig, cur=None):
        self.orig, self.cur = orig, cur or orig

    def nxt(self, I):
        it, x = self.cur.nxt(I)
        if x is END:
            it, x = self.orig.nxt(I)
        return CycleIt(self.orig, it), x


class FilterMapIt(It):
    def __init__(self, it, f):
        self.it, self.f = it, f

    def nxt(self, I):
        it = self.it
        while True:
            it, x = it.nxt(I)
            if x is END:
                return FilterMapIt(it, self.f), END
            r = I.resolve(I.call_value(self.f, [x]))
            if not isinstance(r, Agg):
                raise Imprecise("filter_map result is not constant")
            if r.var == 1:
                return FilterMapIt(it, self.f), r.f[0]


class MapIt(It):
    def __init__(self, it, f):
        self.it, self.f = it, f

    def nxt(self, I):
        it, x = self.it.nxt(I)
        if x is END:
            return MapIt(it, self.f), END
        return MapIt(it, self.f), I.call_value(self.f, [x])

    def back(self, I):
        it, x = self.it.back(I)
        if x is END:
            return MapIt(it, self.f), END
        return MapIt(it, self.f), I.call_value(self.f, [x])


class EnumIt(It):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def nxt(self, I):
        it, x = self.it.nxt(I)
        if x is END:
            return EnumIt(it, self.n), END
        return EnumIt(it, self.n + 1), tup(self.n, x)

    def back(self, I):
        k = len(drain_count(I, self.it))
        it, x = self.it.back(I)
        if x is END:
            return EnumIt(it, self.n), END
        return EnumIt(it, self.n), tup(self.n + k - 1, x)


class ZipIt(It):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def nxt(self, I):
        a, x = self.a.nxt(I)
        if x is END:
            return ZipIt(a, self.b), END
        b, y = self.b.nxt(I)
        if y is END:
            return ZipIt(a, b), END
        return ZipIt(a, b), tup(x, y)

    def back(self, I):
        n, m = len(drain_count(I, self.a)), len(drain_count(I, self.b))
        a, b = self.a, self.b
        while n > m:
            a, _ = a.back(I)
            n -= 1
        while m > n:
            b, _ = b.back(I)
            m -= 1
        a, x = a.back(I)
        b, y = b.back(I)
        if x is END:
            return ZipIt(a, b), END
        return ZipIt(a, b), tup(x, y)


class RevIt(It):
    def __init__(self, it):
        self.it = it

    def nxt(self, I):
        it, x = self.it.back(I)
        return RevIt(it), x

    def back(self, I):
        it, x = self.it.nxt(I)
        return RevIt(it), x


class ChainIt(It):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def nxt(self, I):
        if self.a is not None:
            a, x = self.a.nxt(I)
            if x is not END:
                return ChainIt(a, self.b), x
        b, x = self.b.nxt(I)
        return ChainIt(None, b), x

    def back(self, I):
        b, x = self.b.back(I)
        if x is not END:
            return ChainIt(self.a, b), x
        if self.a is None:
            return self, END
        a, x = self.a.back(I)
        return ChainIt(a, b), x


class TakeIt(It):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def nxt(self, I):
        if self.n == 0:
            return self, END
        it, x = self.it.nxt(I)
        return TakeIt(it, self.n - 1), x

    def back(self, I):
        n = len(drain_count(I, self.it))
        it = self.it
        while n > self.n:
            it, _ = it.back(I)
            n -= 1
        if n == 0:
            return TakeIt(it, 0), END
        it, x = it.back(I)
        return TakeIt(it, n - 1), x


class SkipIt(It):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def nxt(self, I):
        it = self.it
        for _ in range(self.n):
            it, x = it.nxt(I)
            if x is END:
                return SkipIt(it, 0), END
        it, x = it.nxt(I)
        return SkipIt(it, 0), x

    def back(self, I):
        if len(drain_count(I, self.it)) <= self.n:
            return self, END
        it, x = self.it.back(I)
        return SkipIt(it, self.n), x


class StepIt(It):
    def __init__(self, it, n, first=True):
        self.it, self.n, self.first = it, n, first

    def nxt(self, I):
        it = self.it
        if not self.first:
            for _ in range(self.n - 1):
                it, x = it.nxt(I)
                if x is END:
                    return StepIt(it, self.n, False), END
        it, x = it.nxt(I)
        return StepIt(it, self.n, False), x


class ChunkIt(It):
    def __init__(self, r, n, exact=False):
        self.r, self.n, self.exact = r, n, exact

    def nxt(self, I):
        l = self.r.win[1]
        if l == 0 or self.exact and l < self.n:
            return self, END
        k = min(l, self.n)
        return ChunkIt(sub_slice(self.r, k, l - k), self.n, self.exact), sub_slice(self.r, 0, k)

    def back(self, I):
        l = self.r.win[1]
        if self.exact:
            l -= l % self.n
        if l == 0:
            return self, END
        k = l % self.n or self.n
        return ChunkIt(sub_slice(self.r, 0, l - k), self.n, self.exact), sub_slice(self.r, l - k, k)


class WinIt(It):
    def __init__(self, r, n):
        self.r, self.n = r, n

    def nxt(self, I):
        l = self.r.win[1]
        if l < self.n:
            return self, END
        return WinIt(sub_slice(self.r, 1, l - 1), self.n), sub_slice(self.r, 0, self.n)


class FilterIt(It):
    def __init__(self, it, f):
        self.it, self.f = it, f

    def nxt(self, I):
        it = self.it
        while True:
            it, x = it.nxt(I)
            if x is END:
                return FilterIt(it, self.f), END
            b = I.call_value(self.f, [I.ref(x)])
            b = decide(I, b, "filter predicate")
            if b:
                return FilterIt(it, self.f), x


class TakeWhileIt(It):
    def __init__(self, it, f, done=False):
        self.it, self.f, self.done = it, f, done

    def nxt(self, I):
        if self.done:
            return self, END
        it, x = self.it.nxt(I)
        if x is END:
            return TakeWhileIt(it, self.f, True), END
        if decide(I, I.call_value(self.f, [I.ref(x)]), "take_while predicate"):
            return TakeWhileIt(it, self.f), x
        return TakeWhileIt(it, self.f, True), END


class FlatIt(It):
    def __init__(self, it, f, cur=None):
        self.it, self.f, self.cur = it, f, cur

    def nxt(self, I):
        it, cur = self.it, self.cur
        while True:
            if cur is not None:
                cur, x = cur.nxt(I)
                if x is not END:
                    return FlatIt(it, self.f, cur), x
            it, y = it.nxt(I)
            if y is END:
                return FlatIt(it, self.f, None), END
            if self.f is not None:
                y = I.call_value(self.f, [y])
            cur = to_iter(I, y)


class ScanIt(It):
    def __init__(self, it, cell, f):
        self.it, self.cell, self.f = it, cell, f

    def nxt(self, I):
        it, x = self.it.nxt(I)
        if x is END:
            return ScanIt(it, self.cell, self.f), END
        r = I.resolve(I.call_value(self.f, [Ref(self.cell), x]))
        if not isinstance(r, Agg):
            raise Imprecise("scan")
        return ScanIt(it, self.cell, self.f), (r.f[0] if r.var == 1 else END)


class ClonedIt(It):
    def __init__(self, it):
        self.it = it

    def nxt(self, I):
        it, x = self.it.nxt(I)
        return ClonedIt(it), (END if x is END else clone(I, I.load(x) if isinstance(x, Ref) and x.win is None else x))

    def back(self, I):
        it, x = self.it.back(I)
        return ClonedIt(it), (END if x is END else clone(I, I.load(x) if isinstance(x, Ref) and x.win is None else x))


class PeekIt(It):
    def __init__(self, it, buf=None):
        self.it, self.buf = it, buf

    def nxt(self, I):
        if self.buf is not None:
            return PeekIt(self.it), self.buf[0]
        it, x = self.it.nxt(I)
        return PeekIt(it), x


class SuccIt(It):
    def __init__(self, cur, f):
        self.cur, self.f = cur, f

    def nxt(self, I):
        v = I.resolve(self.cur)
        if not isinstance(v, Agg):
            raise Imprecise("successors")
        if v.var == 0:
            return self, END
        x = v.f[0]
        return SuccIt(I.call_value(self.f, [I.ref(x)]), self.f), x


class FnIt(It):
    """std::iter::from_fn / user-defined iterator with a local `next`"""
    def __init__(self, key, cell, call):
        self.key, self.cell, self._call = key, cell, call

    def nxt(self, I):
        r = I.resolve(self._call(I))
        if not isinstance(r, Agg):
            raise Imprecise("iterator with unknown end")
        return self, (r.f[0] if r.var == 1 else END)


def decide(I, b, what):
    b = I.resolve(b)
    if isinstance(b, bool):
        return b
    if isinstance(b, B):
        if implies(I.st.pc, b):
            return True
        if band(I.st.pc, b) is FALSE:
            return False
    raise Imprecise(what + " is not constant")


def drain_count(I, it):
    """length of an effect-free iterator"""
    if isinstance(it, SeqIt) or isinstance(it, ListIt):
        return range(it.hi - it.lo)
    if isinstance(it, RangeIt):
        if it.b is None:
            raise Imprecise("unbounded range")
        return range(max(0, it.b - it.a))
    if isinstance(it, (MapIt, EnumIt, RevIt, ClonedIt, PeekIt)):
        n = len(drain_count(I, it.it))
        return range(n + (1 if isinstance(it, PeekIt) and it.buf is not None else 0))
    if isinstance(it, ZipIt):
        try:
            a = len(drain_count(I, it.a))
        except Imprecise:
            return drain_count(I, it.b)
        try:
            b = len(drain_count(I, it.b))
        except Imprecise:
            return range(a)
        return range(min(a, b))
    if isinstance(it, ChainIt):
        return range((len(drain_count(I, it.a)) if it.a else 0) + len(drain_count(I, it.b)))
    if isinstance(it, TakeIt):
        try:
            return range(min(it.n, len(drain_count(I, it.it))))
        except Imprecise:
            return range(it.n)
    if isinstance(it, SkipIt):
        return range(max(0, len(drain_count(I, it.it)) - it.n))
    if isinstance(it, ChunkIt):
        l = it.r.win[1]
        return range(l // it.n if it.exact else -(-l // it.n))
    if isinstance(it, WinIt):
        return range(max(0, it.r.win[1] - it.n + 1))
    if isinstance(it, StepIt):
        n = len(drain_count(I, it.it))
        return range(-(-n // it.n) if it.first else n // it.n)
    raise Imprecise("iterator length")


def to_iter(I, v):
    v = I.resolve(v)
    if isinstance(v, It):
        return v
    if isinstance(v, Ref):
        if v.win is not None:
            return SeqIt(v, 0, v.win[1])
        x = I.load(v)
        if isinstance(x, It):
            return RefIt(v)
        if isinstance(x, Agg) and x.ty == OPT:
            if x.var == 0:
                return ListIt([])
            return ListIt([Ref(v.cid, v.path + (-2, 0))])
        if isinstance(x, Agg) and "Range" in x.ty:
            return RefIt(v)
        if isinstance(x, Agg):
            return user_iter(I, x, v)
        r = as_slice(I, v)
        return SeqIt(r, 0, r.win[1])
    if isinstance(v, BoxV):
        return to_iter(I, I.st.get(v.cid))
    if isinstance(v, VecV):
        x = I.st.get(v.cid)
        if not isinstance(x, (list, tuple)):
            raise Imprecise("iteration over unknown vector")
        return ListIt(list(x))
    if isinstance(v, tuple):
        return ListIt(list(v))
    if isinstance(v, FBytes):
        return ListIt(list(v.expand()))
    if isinstance(v, Agg):
        t = v.ty.split("::")[-1]
        if t == "Range":
            return RangeIt(need_int(I, v.f[0], "range start"), need_int(I, v.f[1], "range end"))
        if t == "RangeInclusive":
            a, b = need_int(I, v.f[0]), need_int(I, v.f[1])
            if len(v.f) > 2 and v.f[2] is True:
                return RangeIt(0, 0)
            return RangeIt(a, b + 1)
        if t == "RangeFrom":
            return RangeIt(need_int(I, v.f[0]), None)
        if v.ty == OPT:
            return ListIt(list(v.f) if v.var == 1 else [])
        if v.ty == RES:
            return ListIt(list(v.f) if v.var == 0 else [])
        return user_iter(I, v, None)
    raise Imprecise("iteration over %r" % (v,))


def user_iter(I, v, ref):
    for st, path in I.p.impls.get(("std::iter::Iterator", "next"), []):
        if head(st) == v.ty:
            for k in I.p.bykey.get(path, []):
                if ref is None:
                    ref = I.ref(v)
                r = ref
                return FnIt(k, r, lambda I2, k=k, r=r: I2.call_key(k, [r], {}))
    raise Imprecise("iteration over %s" % v.ty)


class RefIt(It):
    """&mut I"""
    def __init__(self, r):
        self.r = r

    def nxt(self, I):
        x = I.load(self.r)
        it = to_iter(I, x)
        n, v = it.nxt(I)
        I.store(self.r, n)
        return self, v

    def back(self, I):
        it = to_iter(I, I.load(self.r))
        n, v = it.back(I)
        I.store(self.r, n)
        return self, v


@lib("std::iter::IntoIterator::into_iter")
def _into_iter(I, c, args, fr):
    v = I.resolve(args[0])
    if isinstance(v, Agg) and v.ty not in (OPT, RES) and "Range" not in v.ty:
        k = I.find_impl(c, args, fr)
        if k is not None:
            return I.call_key(k, args, {})
        return v
    if isinstance(v, Agg) and "Range" in v.ty:
        try:
            return to_iter(I, v)
        except Imprecise:
            return v
    return to_iter(I, v)


S = "core::slice::<impl [T]>::"


@lib(S + "iter", S + "iter_mut")
def _iter(I, c, args, fr):
    r = as_slice(I, args[0])
    return SeqIt(r, 0, r.win[1])


@lib("std::option::Option::<T>::iter")
def _oiter(I, c, args, fr):
    return to_iter(I, args[0])


@lib(S + "chunks", S + "chunks_mut", S + "chunks_exact", S + "chunks_exact_mut")
def _chunks(I, c, args, fr):
    n = need_int(I, args[1], "chunk size")
    if n == 0:
        raise Diverge("chunk size zero")
    return ChunkIt(as_slice(I, args[0]), n, "exact" in c["m"])


@lib(S + "rchunks")
def _rchunks(I, c, args, fr):
    raise Imprecise("rchunks")


@lib(S + "windows")
def _windows(I, c, args, fr):
    return WinIt(as_slice(I, args[0]), need_int(I, args[1]))


@lib("std::vec::Vec::<T, A>::drain")
def _drain(I, c, args, fr):
    v = I.strip(args[0])
    l = I.st.lst(v.cid)
    a, n = range_of(I, I.resolve(args[1]), len(l))
    out = l[a : a + n]
    del l[a : a + n]
    return ListIt(out)


@lib("std::iter::repeat")
def _repeat(I, c, args, fr):
    return RepeatIt(args[0])


@lib("std::iter::once")
def _once(I, c, args, fr):
    return ListIt([args[0]])


@lib("std::iter::empty")
def _empty(I, c, args, fr):
    return ListIt([])


@lib("std::iter::successors")
def _successors(I, c, args, fr):
    return SuccIt(args[0], args[1])


@lib("std::iter::from_fn")
def _from_fn(I, c, args, fr):
    cell = I.st.new(args[0])
    return FnIt("from_fn", cell, lambda I2: I2.call_value(Ref(cell), []))


ITP = "std::iter::Iterator::"
DEP = "std::iter::DoubleEndedIterator::"


def self_it(I, args):
    return to_iter(I, args[0])


@lib(ITP + "next", DEP + "next_back")
def _next(I, c, args, fr):
    r = args[0]
    x = I.load(r)
    if isinstance(x, Agg) and "Range" in x.ty and x.ty.split("::")[-1] == "Range":
        a, b = I.resolve(x.f[0]), I.resolve(x.f[1])
        if not (isinstance(a, int) and isinstance(b, int)):
            raise Imprecise("loop bound is not constant: %r..%r in %s" % (a, b, I.callstack[-1]))
        if a >= b:
            return NONE
        if c["m"] == "next":
            I.store(r, Agg(x.ty, 0, (a + 1, b)))
            return some(a)
        I.store(r, Agg(x.ty, 0, (a, b - 1)))
        return some(b - 1)
    if isinstance(x, Agg) and not ("Range" in x.ty or x.ty in (OPT,)):
        k = I.find_impl(c, args, fr)
        if k is not None:
            return I.call_key(k, args, {})
    if isinstance(x, Ref) and x.win is None:
        it = RefIt(x)
    else:
        it = to_iter(I, x)
    n, v = it.nxt(I) if c["m"] == "next" else it.back(I)
    if not isinstance(it, (RefIt, FnIt)):
        I.store(r, n)
    return NONE if v is END else some(v)


def adapt(name, f):
    def h(I, c, args, fr):
        return f(I, to_iter(I, args[0]), args)

    LIB[name] = h


adapt(ITP + "map", lambda I, it, a: MapIt(it, a[1]))
adapt(ITP + "enumerate", lambda I, it, a: EnumIt(it, 0))
adapt(ITP + "zip", lambda I, it, a: ZipIt(it, to_iter(I, a[1])))
adapt(ITP + "rev", lambda I, it, a: RevIt(it))
adapt(ITP + "chain", lambda I, it, a: ChainIt(it, to_iter(I, a[1])))
adapt(ITP + "take", lambda I, it, a: TakeIt(it, need_int(I, a[1])))
adapt(ITP + "skip", lambda I, it, a: SkipIt(it, need_int(I, a[1])))
adapt(ITP + "step_by", lambda I, it, a: StepIt(it, need_int(I, a[1])))
adapt(ITP + "filter", lambda I, it, a: FilterIt(it, a[1]))
adapt(ITP + "take_while", lambda I, it, a: TakeWhileIt(it, a[1]))
adapt(ITP + "flat_map", lambda I, it, a: FlatIt(it, a[1]))
adapt(ITP + "flatten", lambda I, it, a: FlatIt(it, None))
adapt(ITP + "cloned", lambda I, it, a: ClonedIt(it))
adapt(ITP + "copied", lambda I, it, a: ClonedIt(it))
adapt(ITP + "peekable", lambda I, it, a: PeekIt(it))
adapt(ITP + "cycle", lambda I, it, a: CycleIt(it))
adapt(ITP + "filter_map", lambda I, it, a: FilterMapIt(it, a[1]))
adapt(ITP + "fuse", lambda I, it, a: it)
adapt(ITP + "scan", lambda I, it, a: ScanIt(it, I.st.new(a[1]), a[2]))
adapt(ITP + "inspect", lambda I, it, a: it)


@lib(ITP + "by_ref")
def _by_ref(I, c, args, fr):
    return args[0]


@lib("std::iter::Peekable::<I>::peek")
def _peek(I, c, args, fr):
    it = I.load(args[0])
    if it.buf is None:
        n, x = it.it.nxt(I)
        it = PeekIt(n, (x,))
        I.store(args[0], it)
    x = it.buf[0]
    return NONE if x is END else some(I.ref(x))


def iterate(I, it):
    n = 0
    while True:
        it, x = it.nxt(I)
        if x is END:
            return
        n += 1
        if n > 1_000_000:
            raise Imprecise("unbounded iteration")
        yield x


def self_items(I, args):
    v = args[0]
    if isinstance(v, Ref) and v.win is None and isinstance(I.load(v), It):
        return iterate(I, RefIt(v))
    return iterate(I, to_iter(I, v))


@lib(ITP + "for_each")
def _for_each(I, c, args, fr):
    for x in self_items(I, args):
        I.call_value(args[1], [x])
    return UNIT


@lib(ITP + "fold")
def _fold(I, c, args, fr):
    acc = args[1]
    for x in self_items(I, args):
        acc = I.call_value(args[2], [acc, x])
    return acc


@lib(ITP + "try_fold", ITP + "try_for_each")
def _try_fold(I, c, args, fr):
    tf = c["m"] == "try_fold"
    acc = args[1] if tf else UNIT
    f = args[2] if tf else args[1]
    last = ok(acc)
    for x in self_items(I, args):
        r = I.resolve(I.call_value(f, [acc, x] if tf else [x]))
        if not isinstance(r, Agg):
            raise Imprecise("try_fold")
        bad = r.var == 1 if r.ty == RES else r.var == 0
        if bad:
            return r
        acc = r.f[0]
        last = r
    return last


@lib(ITP + "count")
def _count(I, c, args, fr):
    return sum(1 for _ in self_items(I, args))


@lib(ITP + "last")
def _ilast(I, c, args, fr):
    r = NONE
    for x in self_items(I, args):
        r = some(x)
    return r


@lib(ITP + "nth")
def _nth(I, c, args, fr):
    n = need_int(I, args[1])
    for i, x in enumerate(self_items(I, args)):
        if i == n:
            return some(x)
    return NONE


@lib(ITP + "sum", ITP + "product")
def _sum(I, c, args, fr):
    acc = None
    for x in self_items(I, args):
        x = I.strip(x)
        if acc is None:
            acc = x
        elif isinstance(acc, (int, Term)):
            acc = I.binop("Add" if c["m"] == "sum" else "Mul", acc, x, {"k": "int", "bits": 64, "sg": 0})
        else:
            acc = acc + x if c["m"] == "sum" else acc * x
    if acc is None:
        return 0 if c["m"] == "sum" else 1
    return acc


@lib(ITP + "any", ITP + "all")
def _any(I, c, args, fr):
    r = FALSE if c["m"] == "any" else TRUE
    for x in self_items(I, args):
        b = tob(I.resolve(I.call_value(args[1], [x])))
        r = bor(r, b) if c["m"] == "any" else band(r, b)
        if (r is TRUE) == (c["m"] == "any") and r.v is None:
            break
    return r


@lib(ITP + "eq", ITP + "ne")
def _iteq(I, c, args, fr):
    a = list(iterate(I, to_iter(I, args[0])))
    b = list(iterate(I, to_iter(I, args[1])))
    r = TRUE if len(a) == len(b) else FALSE
    for x, y in zip(a, b):
        r = band(r, equal(I, x, y))
    return bnot(r) if c["m"] == "ne" else r


@lib(ITP + "position", ITP + "find", ITP + "max", ITP + "min")
def _position(I, c, args, fr):
    m = c["m"]
    if m in ("max", "min"):
        l = [I.strip(x) for x in self_items(I, args)]
        if not l:
            return NONE
        if all(isinstance(x, int) for x in l):
            return some(max(l) if m == "max" else min(l))
        raise Imprecise(m)
    # the first item whose predicate holds: a chain of selections, the item
    # at i under the negation of every earlier predicate
    found = []
    pc0 = I.st.pc
    last = NONE
    for i, x in enumerate(self_items(I, args)):
        b = tob(I.resolve(I.call_value(args[1], [x if m == "position" else I.ref(x)])))
        y = some(i if m == "position" else x)
        if b.v is None and b is TRUE:
            last = y
            break
        if b.v is None and b is FALSE:
            continue
        found.append((b, y))
        I.st.pc = band(I.st.pc, bnot(b))
    I.st.pc = pc0
    for b, y in reversed(found):
        last = I.ite(b, y, last)
    return last


@lib(ITP + "unzip")
def _unzip(I, c, args, fr):
    a, b = [], []
    for x in self_items(I, args):
        a.append(x.f[0])
        b.append(x.f[1])
    return tup(I.vec(a), I.vec(b))


@lib(ITP + "collect", "std::iter::FromIterator::from_iter")
def _collect(I, c, args, fr):
    # element kind of the target: Vec, Result<Vec,_>, Option<Vec>, String
    target = None
    fenv = fr.env if fr is not None else {}
    if c["m"] == "collect":
        ts = [I.subst(t, fenv) for t in c["a"] if isinstance(t, int)]
        if len(ts) > 1:
            target = ts[1]
    else:
        target = I.subst(c["st"], fenv)
    items = []
    if target is not None and target["k"] == "adt" and target["p"] in (RES, OPT):
        kind = target["p"]
        pc0 = I.st.pc
        conds = []
        for x in self_items(I, args):
            x = I.resolve(x)
            if isinstance(x, Agg):
                bad = x.var == 1 if kind == RES else x.var == 0
                if bad:
                    return x if kind == RES else NONE
                items.append(x.f[0])
            else:
                raise Imprecise("collect of conditional results")
        v = collect_into(I, items, I.subst(target["a"][0], fenv) if target["a"] else None)
        return ok(v) if kind == RES else some(v)
    items = list(self_items(I, args))
    return collect_into(I, items, target)


def collect_into(I, items, target):
    if target is not None and target["k"] == "adt" and target["p"].endswith("String"):
        return T("str", I.uniq())
    if target is not None and target["k"] == "tuple":
        return UNIT
    return I.vec(items)


@lib("std::iter::Extend::extend")
def _extend(I, c, args, fr):
    v = I.strip(args[0])
    if not isinstance(v, VecV):
        return NotImplemented
    st = I.p.types[c["st"]] if c["st"] is not None else None
    items = []
    for x in iterate(I, to_iter(I, args[1])):
        # Extend<&T> copies
        if isinstance(x, Ref) and x.win is None and extends_by_ref(I, c):
            x = I.load(x)
        items.append(x)
    I.st.lst(v.cid).extend(items)
    return UNIT


def extends_by_ref(I, c):
    a = c["a"]
    if len(a) > 1 and isinstance(a[1], int):
        return I.p.types[a[1]]["k"] == "ref" and not c["rp"].startswith("<std::vec::Vec<T, A> as std::iter::Extend<T>>") or (
            "Extend<&" in (c["rp"] or "")
        )
    return "Extend<&" in (c["rp"] or "")


# ------------------------------------------------------------------ boxes, strings, fmt, misc
@lib("std::boxed::Box::<T>::new")
def _box(I, c, args, fr):
    return BoxV(I.st.new(args[0]))


@lib("std::boxed::Box::<T>::new_uninit")
def _box_uninit(I, c, args, fr):
    return BoxV(I.st.new(UNINIT))


@lib("std::boxed::box_assume_init_into_vec_unsafe")
def _box_vec(I, c, args, fr):
    b = args[0]
    v = I.st.get(b.cid)
    while isinstance(v, Agg) and len(v.f) >= 1 and not isinstance(v, tuple):
        nv = [x for x in v.f if x is not UNINIT]
        v = nv[-1]
    if not isinstance(v, tuple):
        raise Imprecise("vec! of %r" % (v,))
    return I.vec(v)


@lib("core::str::<impl str>::chars", "core::str::<impl str>::bytes", "core::str::<impl str>::char_indices")
def _chars(I, c, args, fr):
    # names are opaque: assumed to contain no special characters
    return ListIt([])


def strfn(I, c, args, fr):
    return T("str", c["p"])


for n in ("std::fmt::format", "std::string::ToString::to_string", "std::string::String::new",
          "std::string::String::from", "std::string::String::as_str", "std::fmt::Arguments::<'a>::new",
          "std::fmt::Arguments::<'a>::from_str", "std::hint::must_use", "std::string::String::with_capacity"):
    LIB[n] = strfn


@lib("std::hint::must_use", "std::hint::black_box", "std::convert::identity")
def _ident(I, c, args, fr):
    return args[0]


@lib("std::mem::drop")
def _mdrop(I, c, args, fr):
    v = args[0]
    if isinstance(v, Agg):
        r = I.ref(v)
        I.drop_value(v, r, None)
    return UNIT


@lib("std::mem::size_of")
def _sizeof(I, c, args, fr):
    t = I.subst(c["a"][0], fr.env)
    if t["k"] == "int":
        return t["bits"] // 8
    raise Imprecise("size_of")


@lib("std::f64::<impl f64>::ln", "std::f64::<impl f64>::ceil", "std::f64::<impl f64>::floor", "std::f64::<impl f64>::log2",
     "std::f64::<impl f64>::sqrt", "core::f64::<impl f64>::ceil", "core::f64::<impl f64>::floor", "core::f64::<impl f64>::sqrt",
     "std::intrinsics::ceil", "std::intrinsics::floor", "std::intrinsics::log", "std::intrinsics::log2")
def _float(I, c, args, fr):
    import math
    x = I.strip(args[0])
    if isinstance(x, int):
        x = float(x)
    if not isinstance(x, float):
        return NotImplemented
    n = c["m"] if c["m"] else c["p"].split("::")[-1]
    if n in ("ln", "log") and I.hooks.get("ln") is not None:
        return I.hooks["ln"]
    f = {"ln": math.log, "log": math.log, "log2": math.log2, "ceil": lambda v: float(math.ceil(v)),
         "floor": lambda v: float(math.floor(v)), "sqrt": math.sqrt}[n]
    return f(x)


@lib("num_cpus::get", "num_cpus::get_physical")
def _ncpu(I, c, args, fr):
    h = I.hooks.get("num_cpus")
    if h is not None:
        return h(I) if callable(h) else h
    return 4


@lib("rand_core::RngCore::fill_bytes")
def _fill_bytes(I, c, args, fr):
    r = as_slice(I, args[1])
    k = I.uniq()
    for i in range(r.win[1]):
        I.store(slice_at(r, i), T("rnd", k, i))
    return UNIT


def ptr_slice(I, p, n):
    return Ref(p.cid, p.path, (0, n))


def transmute(I, v, a, b):
    return v


def pick_impl(I, c, args, keys):
    """several impls of one trait for the same ADT (e.g. Add<&T>, Add<Var>): choose by the
    type of the second argument"""
    out = []
    if len(args) < 1:
        return None
    # by ref-ness of self
    def kind(v):
        if isinstance(v, Ref):
            w = I.load(v) if v.win is None else None
            return ("ref",) + kind(w) if not isinstance(w, Ref) else ("ref", "ref")
        if isinstance(v, Agg):
            if v.ty == "tuple":
                return ("tuple",) + tuple(kind(x)[0] for x in v.f)
            return (v.ty,)
        return (type(v).__name__,)

    def tkind(tid):
        t = I.p.types[tid]
        if t["k"] == "ref":
            return ("ref",) + tkind(t["t"])
        if t["k"] == "adt":
            return (t["p"],)
        if t["k"] == "tuple":
            return ("tuple",) + tuple(tkind(x)[0] for x in t["a"])
        return ("?",)

    for k in keys:
        b = I.p.bodies[k]
        good = True
        for i, v in enumerate(args):
            x, y = kind(v), tkind(b["locals"][i + 1])
            for p, q in zip(x, y):
                if q == "?" or p == q:
                    continue
                good = False
        if good:
            out.append(k)
    if len(out) == 1:
        return out[0]
    return None


FNTRAITS = ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn")


@lib("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _fncall(I, c, args, fr):
    f = args[0]
    v = I.strip_callable(f)
    a = list(args[1].f) if isinstance(args[1], Agg) else [args[1]]
    if isinstance(v, Clo):
        ref = f if isinstance(f, Ref) else None
        n = 0
        while ref is not None and isinstance(I.load(ref), Ref):
            ref = I.load(ref)
        return I.call_closure(v, a, ref)
    return I.call_value(v, a, fr)


def is_mut(I, fr, o):
    """is the operand a mutable reference?"""
    if o[0] == "k":
        return False
    ty = I.p.types[fr.b["locals"][o[1][0]]]
    for e in o[1][1]:
        if e == "*" and ty["k"] == "ref":
            ty = I.p.types[ty["t"]]
        else:
            return True
    return ty["k"] == "ref" and ty["mut"] or ty["k"] == "ptr"


def havoc(I, r, p):
    v = I.load(r) if r.win is None else None
    if r.win is not None:
        raise Imprecise("unmodelled function %s writes to a slice" % p)
    if isinstance(v, Ref):
        return havoc(I, v, p)
    if isinstance(v, VecV):
        raise Imprecise("unmodelled function %s writes to a vector" % p)
    I.store(r, T("top", p, I.uniq()))


def unknown_call(I, c, args, fr, t):
    p = c["rp"] or c["p"]
    if p.startswith(("core::fmt", "std::fmt", "alloc::fmt", "alloc::string", "std::string", "alloc::str",
                     "std::str", "core::str", "std::io", "std::collections", "std::error")) or "fmt::" in p or "String" in p:
        return T("str", p)
    if p.startswith(("core::panicking", "std::panicking", "std::rt::", "core::option", "core::result", "std::process")):
        raise Diverge("panic " + p)
    if t is not None and t[4] is None:
        raise Diverge("panic " + p)
    I.unmodelled[p] = I.unmodelled.get(p, 0) + 1
    h = I.hooks.get("unknown_call")
    if h is not None:
        r = h(I, c, args, fr)
        if r is not NotImplemented:
            return r
    vals = []
    if t is not None:
        for a, o in zip(args, t[2]):
            if isinstance(a, Ref) and is_mut(I, fr, o):
                havoc(I, a, p)
    for a in args:
        if isinstance(a, Ref):
            try:
                vals.append(hashable(I, a))
            except Exception:
                vals.append(I.uniq())
        else:
            vals.append(hashable(I, a))
    try:
        return T("call", p, *vals)
    except TypeError:
        return T("top", p, I.uniq())


def I_add(words, bits=64):
    from .intdom import WordDom
    r = 0
    d = WordDom()
    for w in words:
        r = d.add([r, w], bits)
    return r
