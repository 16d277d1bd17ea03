"""F04: constant-time discipline.  Secret-taint abstract interpretation: every word, comparison and choice
derived from a field element, point or encoding is a fresh secret; a switch, index, length, trip count or
short-circuiting library call decided by a secret is a violation."""
from .gad import *
from . import terms as tm
from . import lib as L
from .interp import Interp, Imprecise, Diverge, SymIndex
from .intdom import WordDom
from .p_core import tcall
from .p_curve import FP, FQ

EC0, EC1 = "curves::ec0::Ec0", "curves::ec1::Ec1"
FIELDS = (FP, FQ)
CURVES = {EC0: FQ, EC1: FP}

# operations the code documents as not constant time
EXEMPT = {
    ("std::ops::Neg", "neg"): CURVES,          # "TODO: not constant time"
    ("curves::Curve", "from_xy"): CURVES,      # "TODO: not constant time yet"
    ("curves::Curve", "to_bytes"): CURVES,     # "mark this vartime?"
}
SKIP = {("std::fmt::Debug", "fmt"), ("std::fmt::Display", "fmt"), ("std::hash::Hash", "hash"),
        ("std::cmp::Eq", "assert_fields_are_eq"), ("std::cmp::Eq", "assert_receiver_is_total_eq")}
SHORT = {"any", "all", "find", "find_map", "position", "rposition", "filter", "filter_map", "take_while", "skip_while",
         "map_while", "contains", "starts_with", "ends_with", "binary_search", "sort", "sort_unstable", "dedup", "max_by",
         "min_by", "max_by_key", "min_by_key", "cmp", "partial_cmp"}


class Sec:
    """an unknown value that may depend on a secret"""
    __slots__ = ()
    lo, hi = 0, 1  # a Choice made from a secret byte is taken to be 0 or 1

    def join(self, I, c, b):
        return Sec()


class SecDom(WordDom):
    word = Sec

    def __init__(self):
        self.n = 0

    def b(self):
        self.n += 1
        return tm.bvar(T("secret", self.n))

    def binop(self, I, op, a, b, bits, sg):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.b()
        if op.endswith("WithOverflow"):
            return Agg("tuple", 0, (Sec(), self.b()))
        if op == "Cmp":
            raise Imprecise("three-way comparison of a secret")
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked") or op[:3] in ("Add", "Sub", "Mul") or op.startswith("Bit"):
            return Sec()
        if op in ("Div", "Rem"):
            raise Imprecise("division by or of a secret is not constant time")
        raise Imprecise("secret operand of " + op)

    def unop(self, I, op, a, bits):
        return Sec()

    def cast(self, I, v, a, b):
        return Sec()

    def eqconst(self, I, v, c):
        return self.b()

    def ite(self, c, a, b):
        return Sec()

    def z(self, x):
        return x

    def eq(self, a, b):
        return self.b()


class Taint(Interp):
    def __init__(self, prog, exempt):
        super().__init__(prog)
        self.ring = set()
        self.dom = SecDom()
        self.exempt = exempt
        self.exon = 0
        self.viol = {}
        self.no_pc_refine = True
        self.branches = 0
        self.hooks["bytes_to_word"] = lambda I, bs, w: Sec()
        self.hooks["word_to_bytes"] = lambda I, v, n: [Sec() for _ in range(n)]

    def call_key(self, key, args, env=None, untuple=False):
        ex = key in self.exempt
        self.exon += ex
        try:
            return super().call_key(key, args, env, untuple)
        finally:
            self.exon -= ex

    def bad(self, fn, what):
        if not self.exon:
            self.viol.setdefault((fn, what), self.line)

    def branch(self, fr, b, v, t):
        arms = [x[1] for x in t[2]] + [t[3]]
        live = [x for x in arms if not self.dies(fr.b["blocks"], x)]
        if len(live) > 1:
            self.bad(fr.fn, "branch on a secret-dependent value")
        self.branches += 1
        return super().branch(fr, b, v, t)

    def dies(self, blocks, b):
        """the block leads to a panic without any further decision"""
        for _ in range(40):
            t = blocks[b][1]
            if t[0] == "goto":
                b = t[1]
            elif t[0] == "drop":
                b = t[2]
            elif t[0] == "assert":
                b = t[3]
            elif t[0] == "call":
                if t[4] is None:
                    return True
                b = t[4]
            else:
                return t[0] not in ("ret", "sw")
        return False

    def on_assert(self, fr, t, v):
        pass

    def rvalue(self, fr, rv):
        try:
            return super().rvalue(fr, rv)
        except SymIndex:
            self.bad(fr.fn, "memory access at a secret-dependent index")
            return Sec()

    def index(self, cid, path, win, iv):
        if not isinstance(self.resolve(iv), int):
            self.bad(self.callstack[-1] if self.callstack else "?", "memory access at a secret-dependent index")
            iv = 0
        return super().index(cid, path, win, iv)

    def invoke(self, c, args, fr, t):
        r = super().invoke(c, args, fr, t)
        k = c["k"]
        if k is None or not self.p.bodies[k]["local"]:
            p, m = c["p"], c["m"]
            if m in SHORT and not self.public(r):
                self.bad(fr.fn, "library call %s decided by a secret" % m)
            elif m in ("eq", "ne", "lt", "le", "gt", "ge") and c["tr"] in ("std::cmp::PartialEq", "std::cmp::PartialOrd") and not self.public(r):
                a = self.strip(args[0])
                if not isinstance(a, (int, Sec, Term, B, bool)) and not (isinstance(a, Agg) and self.find_impl(c, args, fr)):
                    self.bad(fr.fn, "library comparison of a secret sequence")
        return r

    def public(self, r):
        r = self.resolve(r)
        if isinstance(r, Agg) and r.ty in (OPT, RES):
            return True
        if isinstance(r, B):
            return r.v is None
        return not isinstance(r, (Sec, Term))


OPT, RES = "std::option::Option", "std::result::Result"


def base(s):
    s = s.strip()
    while s.startswith("&"):
        s = s[1:].lstrip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1].lstrip()
        if s.startswith("mut "):
            s = s[4:]
    return s


def mk(I, ty, prog, selfty, n, flag):
    """a secret argument of the given type"""
    k, s = ty["k"], ty["s"]
    if k == "ref":
        inner = prog.types[ty["t"]]
        if inner["k"] == "slice":
            return I.slice([mk(I, prog.types[inner["t"]], prog, selfty, n, flag) for _ in range(n)])
        return I.ref(mk(I, inner, prog, selfty, n, flag))
    if s == "Self" or k == "param" and s in ("Self", "F"):
        return value(selfty)
    if k == "adt":
        if s in FIELDS or s in CURVES:
            return value(s)
        if s.startswith("subtle::Choice"):
            return I.dom.b()
        if s.startswith("subtle::CtOption"):
            return Agg("subtle::CtOption", 0, (value(selfty), I.dom.b()))
    if k == "bool":
        return flag
    if k == "int":
        return Sec()
    if k == "array":
        m = int(ty["len"])
        return tuple(mk(I, prog.types[ty["t"]], prog, selfty, n, flag) for _ in range(m))
    if k == "tuple":
        return Agg("tuple", 0, tuple(mk(I, prog.types[x], prog, selfty, n, flag) for x in ty["a"]))
    raise Imprecise("argument type %s" % s)


def value(s):
    if s in FIELDS:
        return Agg(s, 0, (tuple(Sec() for _ in range(4)),))
    return Agg(s, 0, tuple(value(CURVES[s]) for _ in range(3)))


def operations(prog):
    """every operation of the fields and curves: (label, key, self type, env, exempt)"""
    out, seen = [], set()
    own = FIELDS + tuple(CURVES)
    for i in prog.d["impls"]:
        st = base(i["st"])
        arg = next((x for x in own if "<" in i["tr"] and ("%s>" % x) in i["tr"]), None) if i["tr"] else None
        if st not in own:
            continue
        for n, p in i["items"]:
            for k in prog.bykey.get(p, []):
                out.append((i["tr"], n, k, st))
                seen.add(k)
    for k, b in sorted(prog.bodies.items()):
        p = b["path"]
        if k in seen or not b["local"] or "{closure" in p or "{constant" in p or "test" in p.split("::"):
            continue
        if p.startswith("fields::Field::") or p.startswith("curves::Curve::"):
            for st in (FIELDS if p.startswith("fields::Field") else CURVES):
                out.append((p.rsplit("::", 1)[0], p.rsplit("::", 1)[1], k, st))
        elif p.startswith(("fields::", "curves::")) and "as std::" not in p:
            st = next((x for x in own if p.startswith(x + "::")), None)
            if st is None:
                ts = [base(prog.types[t]["s"]) for t in b["locals"][: b["argc"] + 1]]
                st = next((x for x in own if x in ts), None)
            out.append((None, p.rsplit("::", 1)[1], k, st))
    return out


def analyse(R, prog, label, key, st, tr, n, flags, summ, exempt):
    tm.reset()
    tm.MOD = None
    b = prog.bodies[key]
    stat = 0
    for flag in flags:
        for ln in ((0, 1, 3) if any(prog.types[t]["s"].startswith(("&mut [", "&[")) and ";" not in prog.types[t]["s"]
                                    for t in b["locals"][1: b["argc"] + 1]) else (1,)):
            I = Taint(prog, exempt)
            for k2, rty in summ.items():
                if k2 != key:
                    I.hooks[prog.bodies[k2]["path"]] = (lambda I, c, a, fr, rty=rty: value(rty))
            env = {"Self": next(t for t in prog.types if t["s"] == st)} if st and "Self" in b_params(prog, b) else {}
            args = []
            for t in b["locals"][1: b["argc"] + 1]:
                args.append(mk(I, prog.types[t], prog, st, ln, flag))
            if n == "pow_vartime":
                # documented as variable time in the exponent: the exponent is public, the base secret
                args[1] = I.ref((0x9E3779B97F4A7C15, 0xF39CC0605CEDC834, 5, 1 << 61))
            try:
                I.call_key(key, args, env)
            except Diverge as e:
                R.check("ct:%s:total" % label, False, "always panics: %s" % e)
            stat += I.steps
            for (fn, what), line in sorted(I.viol.items()):
                R.check("ct:%s" % label, False, "%s in %s" % (what, fn), rule="no secret decides control flow or an address")
            if not I.viol:
                R.check("ct:%s" % label, True, rule="no secret decides control flow or an address")
            R.analysed |= I.analysed
    return True


def b_params(prog, b):
    return {prog.types[t]["s"] for t in b["targs"]}


def check_f04(R, prog):
    ops = operations(prog)
    R.notes["explanation"] = (
        "Every operation of both fields and both curves is interpreted over its MIR with secret operands (all limbs, "
        "coordinates, encodings and choices unknown); a switch, memory index or short-circuiting library call whose outcome "
        "depends on a secret is reported with the function it occurs in. Calls from one operation to another field or curve "
        "operation are replaced by an unknown secret result, because the callee is analysed on its own. Operations the source "
        "documents as not constant time (point negation, from_xy, point to_bytes, the exponent of pow_vartime) are exempt.")
    R.assumptions += ["the compiler does not turn branch-free source into branches; the subtle crate's primitives and machine "
                      "arithmetic on fixed-width words (other than division) are constant time",
                      "assertions that fail are outside the property (they stop the program)"]
    exempt = {k for tr, n, k, st in ops if st in EXEMPT.get((tr, n), ())}
    summ = {}
    for tr, n, k, st in ops:
        r = prog.types[prog.bodies[k]["locals"][0]]
        if r["k"] == "adt" and r["s"] in FIELDS + tuple(CURVES) and k not in exempt and tr not in ("fields::Field", "curves::Curve"):
            summ[k] = r["s"]
    jobs = []
    nm = 0
    for tr, n, k, st in ops:
        if (tr, n) in SKIP or k in exempt:
            continue
        b = prog.bodies[k]
        ts = [prog.types[t]["s"] for t in b["locals"][1: b["argc"] + 1]]
        label = b["path"] if not (tr in ("fields::Field", "curves::Curve") and b["path"].startswith(tr)) else "%s[%s]" % (b["path"], st.rsplit("::", 1)[1])
        flags = (False, True) if "bool" in ts else (False,)
        jobs.append((label, analyse, R, prog, label, k, st, tr, n, flags, summ, exempt))
        nm += 1
    R.parallel(jobs)
    R.floor("field and curve operations", nm, 90)
