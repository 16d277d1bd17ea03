"""E01: errors are propagated.

Forward dataflow per fallible call site: assume the call returned Err and follow the control flow graph with the error as the only
known value (everything else unknown, both sides of every undecided branch).  On every path to a return the returned value must carry
the error, and no further fallible step or constraint-system operation may run."""
from .gad import *
from . import interp as ip
from .interp import succs

RESULT = "std::result::Result"
OPTION = "std::option::Option"
TRACKED = ("circuits::SynthesisError",)

E_P = ("P",)
UNK = None


def adt(var, *fs):
    return ("adt", var, tuple(fs))


ERR = adt(1, E_P)


def carries(v):
    return v is not None and (v == E_P or v[0] == "adt" and any(carries(x) for x in v[2]) or v[0] == "clo" and any(carries(x) for x in v[2]))


class Bad(Exception):
    pass


class Errs:
    def __init__(self, prog):
        self.prog = prog
        self.types = prog.types
        self.errty = set()
        for i, t in enumerate(prog.types):
            if t["k"] == "adt" and self.is_error(t):
                self.errty.add(i)
        self.fal = {}
        self.steps = {}

    def is_error(self, t):
        p = t.get("p", "")
        return p in TRACKED or p.startswith("dev::") and p.endswith("Error")

    def result(self, ti):
        """type is Result<_, crate error>"""
        t = self.types[ti]
        return t["k"] == "adt" and t.get("p") == RESULT and len(t["a"]) == 2 and t["a"][1] in self.errty

    def wraps(self, ti):
        """what to assume for a fallible value of this type: Err, or Some(Err)"""
        t = self.types[ti]
        if self.result(ti):
            return ERR
        if t["k"] == "adt" and t.get("p") == OPTION and self.result(t["a"][0]):
            return adt(1, ERR)
        if t["k"] == "adt" and t.get("p") == RESULT and t["a"] and self.mentions(t["a"][0]):
            return None
        return None

    def mentions(self, ti, depth=0):
        """type contains a Result with a crate error, or a closure returning one"""
        if not isinstance(ti, int):
            return False
        c = self.fal.get(ti)
        if c is not None:
            return c
        self.fal[ti] = False
        t = self.types[ti]
        r = self.result(ti)
        if not r and t["k"] == "closure":
            b = self.prog.bodies.get(t.get("key"))
            r = bool(b) and self.result(b["locals"][0])
        if not r:
            for f in ("a", "t", "e", "ts"):
                x = t.get(f)
                for y in (x if isinstance(x, list) else [x]):
                    if isinstance(y, int) and not isinstance(y, bool) and depth < 8 and self.mentions(y, depth + 1):
                        r = True
        self.fal[ti] = r
        return r


PROP1 = {"std::ops::Try::branch"}
KEEP = ("map", "and_then", "and", "as_ref", "as_mut", "copied", "cloned", "clone", "inspect")
NAMES = {"std::result::Result::<T, E>::" + m for m in KEEP} | {"std::clone::Clone::clone", "std::result::Result::<&T, E>::copied",
                                                              "std::result::Result::<&T, E>::cloned"}


def fname(f):
    if f[0] == "k" and isinstance(f[1], list) and f[1][0] == "fn":
        return f[1][1]["p"], f[1][1]
    return "?", {}


class Walk:
    def __init__(self, A, key, lenient=False):
        """lenient: the error is a missing witness value, which may be held until the closure that delivers it"""
        self.A = A
        self.lenient = lenient
        self.prog = A.prog
        self.key = key
        self.b = A.prog.bodies[key]

    # --- environment: {local: value}; values of locals not in it are unknown
    def get(self, env, pl):
        v = env.get(pl[0])
        for e in pl[1]:
            if v is None:
                return None
            if e == "*":
                continue
            if e[0] == "d":
                if v[0] == "adt" and v[1] != e[1]:
                    raise Bad("reads variant %d of an error value" % e[1])
                continue
            if e[0] == "f":
                if v[0] in ("adt", "clo"):
                    v = v[2][e[1]] if e[1] < len(v[2]) else None
                    continue
                if v == E_P:
                    continue
            return None
        return v

    def opv(self, env, o):
        if o[0] in ("c", "m"):
            return self.get(env, o[1])
        if o[0] == "k" and isinstance(o[1], (int, bool)):
            return ("int", int(o[1]))
        return None

    def rv(self, env, rv):
        k = rv[0]
        if k == "use":
            return self.opv(env, rv[1])
        if k == "ref":
            return self.get(env, rv[2])
        if k == "agg":
            fs = tuple(self.opv(env, o) for o in rv[4])
            if rv[1] == "adt" and rv[3] == 1 and self.A.result(rv[2]):
                return ERR
            if not any(carries(f) for f in fs):
                return None
            if rv[1] == "adt":
                return ("adt", rv[3], fs)
            if rv[1] == "clo":
                return ("clo", rv[2], fs)
            return ("adt", 0, fs)
        if k == "disc":
            v = self.get(env, rv[1])
            if v is not None and v[0] == "adt":
                ty = self.A.types[rv[2]]
                if ty["k"] == "adt" and ty.get("v"):
                    return ("int", int(ty["v"][v[1]]["d"]))
                return ("int", v[1])
            return None
        if k == "un" and rv[1] == "Not":
            v = self.opv(env, rv[2])
            return ("int", 1 - v[1]) if v is not None and v[0] == "int" and v[1] in (0, 1) else None
        if k == "cast":
            return self.opv(env, rv[2])
        return None

    def put(self, env, pl, v):
        if pl[1]:
            if "*" in pl[1] or v is None and not carries(env.get(pl[0])):
                return env
            cur = env.get(pl[0])
            if cur is not None and cur[0] == "adt" and len(pl[1]) == 1 and pl[1][0][0] == "f" and pl[1][0][1] < len(cur[2]):
                f = list(cur[2])
                f[pl[1][0][1]] = v
                env = dict(env)
                env[pl[0]] = ("adt", cur[1], tuple(f))
                return env
            if v is not None and carries(v):
                env = dict(env)
                env[pl[0]] = ("adt", 0, (v,))
            return env
        env = dict(env)
        if v is None:
            env.pop(pl[0], None)
        else:
            env[pl[0]] = v
        return env

    def from_block(self, block, env, transferred=False):
        """all paths from the start of block; raises Bad with the reason when the error gets lost"""
        todo = [(block, env, transferred)]
        seen = set()
        while todo:
            bl, env, tr = todo.pop()
            k = (bl, frozenset(env.items()), tr)
            if k in seen:
                continue
            if len(seen) > 20000:
                raise Bad("too many states")
            seen.add(k)
            blk = self.b["blocks"][bl]
            for s in blk[0]:
                if s[0] == "=":
                    env = self.put(env, s[1], self.rv(env, s[2]))
            t = blk[1]
            op = t[0]
            if op == "ret":
                v = env.get(0)
                if tr:
                    continue
                if v is None or not carries(v):
                    raise Bad("returns without the error")
                if v[0] == "adt" and v[1] == 0 and self.A.result(self.b["locals"][0]):
                    raise Bad("returns Ok around the error")
                continue
            if op == "sw":
                v = self.opv(env, t[1])
                if v is not None and v[0] == "int":
                    tgt = t[3]
                    for c, tg in t[2]:
                        if int(c) == v[1]:
                            tgt = tg
                    todo.append((tgt, env, tr))
                else:
                    for c, tg in t[2]:
                        todo.append((tg, env, tr))
                    todo.append((t[3], env, tr))
                continue
            if op == "call":
                env, tr, cont = self.call(env, t, tr)
                if cont and t[4] is not None:
                    todo.append((t[4], env, tr))
                continue
            for s in succs(t):
                todo.append((s, env, tr))

    def call(self, env, t, tr):
        name, f = fname(t[1])
        args = [self.opv(env, a) for a in t[2]]
        has = [a for a in args if carries(a)]
        dty = self.b["locals"][t[3][0]] if not t[3][1] else None
        last = name.split("::")[-1]
        if name == "std::ops::Try::branch" and args and args[0] is not None:
            v = args[0]
            if v == ERR:
                return self.put(env, t[3], adt(1, ERR)), tr, True
            if v[0] == "adt" and v[1] == 0:
                return self.put(env, t[3], adt(0, v[2][0] if v[2] else None)), tr, True
        if name == "std::ops::FromResidual::from_residual" and (has or dty is not None and self.A.result(dty)):
            # (another step's error leaving the function is as good)
            return self.put(env, t[3], ERR), tr, True
        if has and (name in NAMES or last in KEEP and name.startswith(RESULT)):
            if args[0] == ERR:
                return self.put(env, t[3], ERR), tr, True
            if last == "clone":
                return self.put(env, t[3], args[0]), tr, True
        if has and name.startswith(RESULT) and last == "map_err" and args[0] == ERR:
            return self.put(env, t[3], ERR), tr, True
        if has and name.startswith(RESULT) and last in ("is_err", "is_ok") and args[0] == ERR:
            return self.put(env, t[3], ("int", 1 if last == "is_err" else 0)), tr, True
        if has and name.startswith(RESULT) and last == "err" and args[0] == ERR:
            return self.put(env, t[3], adt(1, E_P)), tr, True
        if has and name.startswith(OPTION) and last == "transpose" and args[0] == adt(1, ERR):
            return self.put(env, t[3], ERR), tr, True
        if has and name in ("std::convert::From::from", "std::convert::Into::into"):
            return self.put(env, t[3], args[0]), tr, True
        if has and tr and name.startswith(RESULT) and last == "ok":
            return self.put(env, t[3], None), tr, True
        if has and dty is not None and self.A.result(dty):
            clos = [a for a in args if a is not None and a[0] == "clo" and carries(a)]
            if clos and all(a is None or not carries(a) or a[0] == "clo" for a in args):
                # the error is captured by the witness closure of another fallible call, which must deliver it
                for c in clos:
                    w = Walk(self.A, c[1], True)
                    try:
                        w.from_block(0, {1: ("adt", 0, c[2])})
                    except Bad as e:
                        raise Bad("closure handed the error %s" % e)
                return self.put(env, t[3], None), True, True
        if has:
            raise Bad("error handed to %s" % name)
        if tr:
            return self.put(env, t[3], None), tr, True
        if self.lenient:
            return self.put(env, t[3], None), tr, True
        if dty is not None and self.A.result(dty) and name not in ("std::ops::FromResidual::from_residual",):
            raise Bad("continues with %s" % name)
        trn = f.get("tr")
        if trn in ("circuits::ConstraintSystem", "synthesis::Backend", "synthesis::Driver", "circuits::Circuit") and last not in (
                "pop_namespace", "get_root"):
            raise Bad("continues with %s" % name)
        return self.put(env, t[3], None), tr, True


def witness_value(name):
    """calls that produce a witness value rather than perform a step: a witness closure, or conversions between Option and Result"""
    last = name.split("::")[-1]
    return name == "std::ops::FnOnce::call_once" or name.startswith(RESULT) and last in ("map", "and_then", "and", "map_err", "copied", "cloned") \
        or name.startswith(OPTION) and last in ("ok_or", "ok_or_else")


STEPS = ("circuits::ConstraintSystem", "synthesis::Backend", "synthesis::Driver", "synthesis::SynthesisDriver", "circuits::SynthesisDriver",
         "circuits::Circuit")


def steps(A, key, open_=frozenset()):
    """the body (or something it calls) operates a constraint system, backend or circuit; unresolved callees count as steps"""
    c = A.steps.get(key)
    if c is not None:
        return c
    if key in open_:
        return False
    r = False
    for blk in A.prog.bodies[key]["blocks"]:
        t = blk[1]
        if t[0] != "call":
            continue
        name, f = fname(t[1])
        if f.get("tr") in STEPS:
            r = True
        k = f.get("k")
        if k is not None and A.prog.bodies[k]["local"]:
            r = r or steps(A, k, open_ | {key})
        elif name == "?" or (f.get("tr") or "").startswith("std::ops::Fn") and name != "std::ops::FnOnce::call_once":
            r = True
        # closures handed on may be run
        for a in t[2]:
            if a[0] in "cm" and not a[1][1]:
                ty = A.types[A.prog.bodies[key]["locals"][a[1][0]]]
                if ty["k"] == "closure" and ty["key"] in A.prog.bodies:
                    r = r or steps(A, ty["key"], open_ | {key})
        if r:
            break
    if not open_ or r:
        A.steps[key] = r
    return r


def computes(A, f):
    """a call of this crate's code that only computes a value: its result may be held like any other witness value"""
    k = f.get("k")
    return k is not None and A.prog.bodies[k]["local"] and not steps(A, k)


def derived(A, b, t, name):
    """conversions of a value that is itself followed: they fail only if their input failed (or the closure they run can fail, whose
    own steps must then be returned from the closure)"""
    last = name.split("::")[-1]
    if not name.startswith(RESULT) or last not in ("map", "map_err", "and", "and_then", "copied", "cloned", "inspect"):
        return False
    if last != "and_then":
        return True
    for a in t[2][1:]:
        ty = A.types[b["locals"][a[1][0]]] if a[0] in "cm" and not a[1][1] else {"k": "?"}
        if ty["k"] != "closure" or ty["key"] not in A.prog.bodies:
            return False
        bb = A.prog.bodies[ty["key"]]
        for blk in bb["blocks"]:
            u = blk[1]
            if u[0] == "call" and not u[3][1] and A.wraps(bb["locals"][u[3][0]]) is not None:
                if not derived(A, bb, u, fname(u[1])[0]):
                    return False
    return True


def consumers(A, key):
    """adapters carrying fallible closures must end in something that still carries the Result"""
    b = A.prog.bodies[key]
    out = []
    for blk in b["blocks"]:
        t = blk[1]
        if t[0] != "call":
            continue
        name, f = fname(t[1])
        if t[3][1]:
            continue
        dt = b["locals"][t[3][0]]
        if A.mentions(dt):
            continue
        if f.get("tr") in ("circuits::ConstraintSystem",):
            continue
        last = name.split("::")[-1]
        for a in t[2]:
            if a[0] not in "cm" or a[1][1]:
                continue
            ti = b["locals"][a[1][0]]
            ty = A.types[ti]
            if A.mentions(ti) and not A.result(ti) and last not in ("size_hint", "len", "is_some", "is_none", "drop_in_place"):
                out.append((name, ty["s"], t[-1]))
    return out


MISSING = {"numbers": 100, "bits": 250, "words": 250, "curve points": 200}


def missing_witness(R, prog):
    """every gadget, run with absent inputs by a backend that asks for every witness (p_gadgets.missing)"""
    from . import p_ecc, p_gadgets
    R.missing = True
    R.only = lambda k: ":missing" in k or k.startswith(("analysis:", "floor:missing"))
    n = {}
    for nm, f in (("numbers", p_gadgets.check_num), ("bits", p_gadgets.check_bool), ("words", p_gadgets.check_words), ("curve points", p_ecc.check_ecc)):
        had = len(R.obl)
        R.run(nm, f, R, prog)
        n[nm] = sum(o[0].endswith(":missing-result") for o in R.obl[had:])
        R.floor("missing-witness runs of " + nm, n[nm], MISSING[nm])
    R.missing = False
    R.notes["runs_with_missing_inputs"] = n
    R.only = None


def check_e01(R, prog):
    A = Errs(prog)
    n = 0
    for key, b in sorted(prog.bodies.items()):
        if not b["local"]:
            continue
        bad = []
        sites = 0
        for i, blk in enumerate(b["blocks"]):
            t = blk[1]
            # values of fallible type obtained without a call (moved out of options, iterators, fields)
            if t[0] != "call" or t[4] is None:
                continue
            name, f = fname(t[1])
            if name == "std::ops::FromResidual::from_residual":
                continue
            v = A.wraps(b["locals"][t[3][0]]) if not t[3][1] else None
            if v is None:
                continue
            if derived(A, b, t, name):
                continue
            sites += 1
            w = Walk(A, key, witness_value(name) or computes(A, f))
            try:
                w.from_block(t[4], {t[3][0]: v})
            except Bad as e:
                bad.append("result of %s: %s" % (name, e))
        for name, ty, line in consumers(A, key):
            bad.append("%s drops the results of %s" % (name, ty[:120]))
        if sites or bad:
            n += sites
            R.analysed.add(b["path"])
            seen = {}
            for x in bad:
                seen[x] = 1
            R.check("propagates:%s" % b["path"], not bad, "; ".join(seen))
    R.floor("fallible call sites", n, 500)
    missing_witness(R, prog)
