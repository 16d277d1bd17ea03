"""U01: the parallel helpers return the sequential result for every number of worker threads.

Schedules: crossbeam's scope is modelled by running each spawned closure where it is spawned.  That is exact for every interleaving
if the closures share no mutable state, which is decided separately from the types they capture (no raw pointers, no interior
mutability, no statics), the borrow checker doing the rest.  Values: field elements are polynomials, group elements linear
combinations of independent generators."""
import itertools
import os
from .gad import *
from . import terms as tm
from . import lib as L
from . import interp as ip
from .intdom import mkbits, explicit
from .p_curve import PF, QF, FP, FQ


class ScopeV:
    """crossbeam scope: spawned closures run to completion before `scope` returns"""

    def __init__(self):
        self.n = 0

    def __hash__(self):
        return hash("scope")

    def __eq__(self, o):
        return isinstance(o, ScopeV)

    def join(self, I, c, o):
        return self


def scope(I, c, args, fr):
    r = I.call_value(args[0], [I.ref(ScopeV())])
    return ip.ok(r)


def spawn(I, c, args, fr):
    I.call_value(args[1], [args[0]])
    return Agg("crossbeam_utils::thread::ScopedJoinHandle", 0, ())


def threads(I, cpus):
    I.hooks["num_cpus"] = cpus
    I.hooks["crossbeam_utils::thread::scope"] = scope
    I.hooks["crossbeam_utils::thread::Scope::<'env>::spawn"] = spawn
    return I


def fresh(prog, cpus):
    I = Interp(prog)
    return threads(I, cpus)


def vec(I, items):
    return I.vec(list(items))


def slice_(I, items):
    return I.slice(list(items))


def show(p):
    s = repr(p)
    return s if len(s) < 300 else s[:300] + "..."


def refused(R, prog, key, path, mk, cpus=2):
    """the call must not return"""
    I = fresh(prog, cpus)
    try:
        r = I.call_key(prog.fn(path), mk(I))
        R.check(key, False, "returned %s" % show(r))
    except Diverge:
        R.check(key, True)
    R.analysed |= I.analysed


# ------------------------------------------------------------------ inner product
def inner(R, prog):
    path = "util::compute_inner_product"
    for n in (0, 1, 2, 3, 5):
        I = fresh(prog, 2)
        a = [fe("a%d" % i) for i in range(n)]
        b = [fe("b%d" % i) for i in range(n)]
        r = I.call_key(prog.fn(path), [slice_(I, a), slice_(I, b)])
        want = sum((x * y for x, y in zip(a, b)), ZERO)
        R.check("compute_inner_product:len=%d" % n, isinstance(r, Poly) and (r - want).is_zero(), show(r))
        R.analysed |= I.analysed
    for n, m in ((0, 1), (1, 0), (2, 3), (3, 2)):
        refused(R, prog, "compute_inner_product:refuses %d,%d" % (n, m), path,
                lambda I: [slice_(I, [fe("a%d" % i) for i in range(n)]), slice_(I, [fe("b%d" % i) for i in range(m)])])


# ------------------------------------------------------------------ generator folding
def collapse(R, prog, ls, cpus):
    path = "util::parallel_generator_collapse"
    for l in ls:
        I = fresh(prog, cpus)
        g = [L.gen("g%d" % i) for i in range(2 * l)]
        u, v = fe("u"), fe("uinv")
        s = slice_(I, g)
        I.call_key(prog.fn(path), [s, u, v])
        out = I.items(s)
        bad = None
        for i in range(l):
            w = g[i].scale(v) + g[i + l].scale(u)
            if out[i] != w:
                bad = (i, out[i])
                break
        R.check("parallel_generator_collapse:len=%d,threads=%d" % (2 * l, cpus), bad is None,
                "element %s is %s" % (bad[0], show(bad[1])) if bad else "")
        R.analysed |= I.analysed


# ------------------------------------------------------------------ multi-exponentiation
def free_bit(name, i):
    """a name "x/c" stands for an element whose set bits lie at the ends and in the middle of the windows of c bits"""
    if "/" in name:
        w = int(name.split("/")[1])
        return i % w in (0, w // 2, w - 1)
    return True


def bits_of_coeff(name):
    return [bvar(T("cbit", name, i)) if free_bit(name, i) else FALSE for i in range(255)] + [FALSE]


def coeff_poly(name):
    r = ZERO
    for i in range(255):
        if free_bit(name, i):
            r = r + b2f(bvar(T("cbit", name, i))).scale(1 << i)
    return r


class Coeff:
    """field element with independent bits; its canonical encoding is 32 explicit bytes"""

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, Coeff) and self.name == o.name

    def __repr__(self):
        return self.name

    def method(self, I, c, m, tr, args, fr):
        if m == "to_bytes":
            b = bits_of_coeff(self.name)
            return tuple(mkbits(b[8 * i: 8 * i + 8]) for i in range(32))
        if m in ("clone", "into"):
            return self
        return NotImplemented


def f_ptmul(I, x, y):
    return x.scale(coeff_poly(y.name)) if isinstance(y, Coeff) else NotImplemented


class ZeroC(Coeff):
    def method(self, I, c, m, tr, args, fr):
        if m == "to_bytes":
            return (0,) * 32
        return Coeff.method(self, I, c, m, tr, args, fr)


def multiexp(R, prog, n, cpus, sparse=False, width=0):
    """sparse: only the first and last coefficients are unconstrained, the others are zero (reaches the larger window sizes).
    width: the logarithm of the number of bases is taken to be this, as for exp(width) bases of which all but n have coefficient zero"""
    path = "util::multiexp"
    I = fresh(prog, cpus)
    tag = "/%d" % width if width else ""
    if width:
        I.hooks["ln"] = float(width)
    I.hooks["bytes_to_word"] = lambda I, bs, w: mkbits(sum(((explicit(x) + (FALSE,) * 8)[:8] for x in bs), ()))
    zero = lambda i: sparse and 0 < i < n - 1
    I.hooks["pt.scale"] = lambda I, x, y: L.Pt({}) if isinstance(y, ZeroC) else x.scale(coeff_poly(y.name))
    g = [L.gen("g%d" % i) for i in range(n)]
    r = I.call_key(prog.fn(path), [slice_(I, [(ZeroC if zero(i) else Coeff)("c%d%s" % (i, tag)) for i in range(n)]), slice_(I, g)])
    bad = ""
    if isinstance(r, L.Pt):
        for i in range(n):
            gid, = g[i].m
            d = r.m.get(gid, ZERO) - (ZERO if zero(i) else coeff_poly("c%d%s" % (i, tag)))
            if not d.is_zero():
                bad = "coefficient of base %d is off by %s" % (i, show(d))
                break
        if not bad and set(r.m) - {k for x in g for k in x.m}:
            bad = "extra terms"
    else:
        bad = show(r)
    R.check("multiexp:len=%d,threads=%d%s%s" % (n, cpus, ",sparse" if sparse else "", ",window=%d" % width if width else ""), not bad, bad)
    R.analysed |= I.analysed


def multi_refuse(R, prog):
    for n, m in ((0, 1), (2, 1), (1, 2), (5, 6), (7, 5)):
        refused(R, prog, "multiexp:refuses %d,%d" % (n, m), "util::multiexp",
                lambda I: [slice_(I, [Coeff("c%d" % i) for i in range(n)]), slice_(I, [L.gen("g%d" % i) for i in range(m)])])


# ------------------------------------------------------------------ Fourier transform
def red(p, n):
    """normal form modulo w^(n/2) + 1 (w = 1 for n = 1)"""
    w = fe("w")
    (wm, _), = w.m.items()
    wid = wm[0][0]
    h = n // 2
    out = ZERO
    for m, c in p.m.items():
        e = 0
        rest = []
        for a, k in m:
            if a == wid:
                e = k
            else:
                rest.append((a, k))
        t = Poly({tuple(rest): c})
        if n == 1:
            out = out + t
            continue
        q, e = divmod(e, h)
        out = out + (t if q % 2 == 0 else -t) * w ** e if e else out + (t if q % 2 == 0 else -t)
    return out


def fft(R, prog, log_n, cpus):
    n = 1 << log_n
    I = fresh(prog, cpus)
    I.hooks["ring.powall"] = lambda x, k: red(x ** (k % n), n) if k % n else ONE
    I.hooks["ring.mul"] = lambda a, b: red(a * b, n)
    a = [fe("a%d" % i) for i in range(n)]
    w = fe("w")
    s = slice_(I, a)
    I.call_key(prog.fn("util::best_fft"), [s, w, log_n])
    out = I.items(s)
    bad = None
    for i in range(n):
        want = ZERO
        for j in range(n):
            want = want + (a[j] * w ** ((i * j) % n) if (i * j) % n else a[j])
        if not red(out[i] - want, n).is_zero():
            bad = (i, out[i])
            break
    R.check("best_fft:size=%d,threads=%d" % (n, cpus), bad is None, "output %s is %s" % (bad[0], show(bad[1])) if bad else "")
    R.analysed |= I.analysed


# ------------------------------------------------------------------ polynomial product
def polymul(R, prog, ring, mod, la, lb, cpus):
    tm.reset()
    I = Interp(prog)
    threads(I, cpus)
    tm.MOD = mod
    try:
        I.ring = {ring}
        env = {"F": {"k": "adt", "s": ring, "p": ring, "a": []}}
        I.hooks[("fieldmod", ring)] = mod
        I.hooks["ring.powall"] = lambda x, k: P(pow(next(iter(x.m.values())), k, mod)) if x.is_const() and not x.is_zero() else x ** k
        alpha = pow(ring_root(prog, ring), 1)
        I.hooks[("assoc", "ALPHA")] = lambda *a: P(alpha)
        I.hooks[("assoc", "S")] = lambda *a: two_adicity(mod)
        a = [fe("a%d" % i) for i in range(la)]
        b = [fe("b%d" % i) for i in range(lb)]
        r = I.call_key(prog.fn("util::multiply_polynomials"), [vec(I, a), vec(I, b)])
        out = I.items(L.as_slice(I, r))
        bad = "" if len(out) == la + lb - 1 else "length %d" % len(out)
        for k in range(la + lb - 1):
            if bad:
                break
            want = ZERO
            for i in range(la):
                if 0 <= k - i < lb:
                    want = want + a[i] * b[k - i]
            if not (out[k] - want).is_zero():
                bad = "coefficient %d is %s" % (k, show(out[k]))
        R.check("multiply_polynomials:%d*%d,threads=%d" % (la, lb, cpus), not bad, bad)
        R.analysed |= I.analysed
    finally:
        tm.MOD = None


def two_adicity(mod):
    s = 0
    while (mod - 1) >> s & 1 == 0:
        s += 1
    return s


def ring_root(prog, ring):
    mod = PF if ring == FP else QF
    s = two_adicity(mod)
    x = 2
    while pow(x, (mod - 1) // 2, mod) != mod - 1:
        x += 1
    return pow(x, (mod - 1) >> s, mod)


def too_large(R, prog):
    """S = 3: products of more than 2^S coefficients must be refused"""
    for la, lb in ((5, 5), (8, 9), (2, 8)):
        I = fresh(prog, 1)
        I.hooks[("assoc", "S")] = lambda *a: 3
        I.hooks["ring.powall"] = lambda x, n: P(T("pw", x, n))
        try:
            r = I.call_key(prog.fn("util::multiply_polynomials"),
                           [vec(I, [fe("a%d" % i) for i in range(la)]), vec(I, [fe("b%d" % i) for i in range(lb)])])
            R.check("multiply_polynomials:refuses %d*%d over a domain of 8" % (la, lb), False, "returned")
        except Diverge:
            R.check("multiply_polynomials:refuses %d*%d over a domain of 8" % (la, lb), True)


# ------------------------------------------------------------------ sharing
SHARED = ("Cell<", "::cell::", "Mutex", "RwLock", "Atomic", "::mpsc", "Condvar", "Once<", "OnceLock", "LocalKey", "Lazy")


def reach(prog, key):
    """local bodies reachable from a body through direct calls and closures it creates"""
    seen, todo = set(), [key]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        b = prog.bodies[k]

        def walk(x):
            if isinstance(x, dict):
                for f in ("rp", "p"):
                    for kk in prog.bykey.get(x.get(f), ()) if isinstance(x.get(f), str) else ():
                        if prog.bodies[kk]["local"]:
                            todo.append(kk)
                if isinstance(x.get("k"), str) and x["k"] in prog.bodies:
                    todo.append(x["k"])
            elif isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
            elif isinstance(x, str) and x in prog.bodies and prog.bodies[x]["local"]:
                todo.append(x)

        walk(b["blocks"])
    return seen


def sharing(R, prog):
    """functions run by spawned closures handle no interior mutability and write through no raw pointer, so (safe Rust) two workers
    never touch the same mutable memory and every interleaving gives the result of running them one after the other"""
    n = 0
    for key, b in sorted(prog.bodies.items()):
        if not b["local"]:
            continue
        for blk in b["blocks"]:
            t = blk[1]
            if t[0] != "call" or "crossbeam_utils::thread::Scope::<'env>::spawn" not in str(t[1]):
                continue
            n += 1
            bad = []
            clos = closures_of(prog, b, t)
            if not clos:
                R.check("spawn:%s" % b["path"], False, "cannot identify the spawned closure")
                continue
            for c in clos:
                for k in sorted(reach(prog, c)):
                    bb = prog.bodies[k]
                    R.analysed.add(bb["path"])
                    for l in bb["locals"]:
                        ty = prog.types[l]
                        s = ty.get("s", "")
                        if any(x in s for x in SHARED):
                            bad.append("%s handles %s" % (bb["path"], s))
                    for bk in bb["blocks"]:
                        for st in bk[0]:
                            if st[0] == "=" and st[1][1] and st[1][1][0] == "*" and prog.types[bb["locals"][st[1][0]]]["k"] == "ptr":
                                bad.append("%s writes through a raw pointer" % bb["path"])
            R.check("spawn:%s" % b["path"], not bad, "; ".join(bad[:3]))
    R.floor("spawn sites", n, 6)


def closures_of(prog, b, t):
    out = []
    for a in t[2]:
        if a[0] in ("c", "m"):
            ty = prog.types[b["locals"][a[1][0]]]
            if ty["k"] == "closure" and ty["key"] in prog.bodies:
                out.append(ty["key"])
    return out


# ------------------------------------------------------------------ parameter generation
def params(R, prog, k, cpus):
    """every generator slot is filled, and its cached coordinates are those of the same generator"""
    I = fresh(prog, cpus)
    cnt = [0]

    def from_bytes(I, c, args, fr):
        if c is None or I.subst(c["st"], fr.env)["s"] == "?":
            return NotImplemented
        cnt[0] += 1
        return Agg(L.CTO, 0, (L.gen("r%d" % cnt[0]), TRUE))

    I.hooks["curves::Curve::from_bytes"] = from_bytes
    r = I.call_key(prog.fn("proofs::Params::<C>::new"), [k])
    gs = [I.strip(x) for x in I.items(L.as_slice(I, field(I, r, "generators")))]
    xy = [I.strip(x) for x in I.items(L.as_slice(I, field(I, r, "generators_xy")))]
    key = "Params::new:k=%d,threads=%d" % (k, cpus)
    bad = ""
    if len(gs) != 1 << k or len(xy) != 1 << k:
        bad = "%d generators, %d coordinate pairs" % (len(gs), len(xy))
    elif len(set(gs)) != len(gs) or any(not g.m for g in gs):
        bad = "generators left unset or repeated"
    else:
        for i, (g, p) in enumerate(zip(gs, xy)):
            kk = L.ptkey(g)
            if p.f[0] != P(T("ptX", kk)) or p.f[1] != P(T("ptY", kk)):
                bad = "coordinates %d belong to another point" % i
    if not bad and (field(I, r, "n") != (1 << k) // 4 or field(I, r, "d") != 1 << k or field(I, r, "k") != k):
        bad = "sizes"
    R.check(key, not bad, bad)
    R.analysed |= I.analysed


# one length for every window size from 3 to 7 bits
SPARSE = ((31, 1), (32, 1), (54, 1), (55, 1), (149, 1), (405, 1), (66, 2), (460, 3))


def check_u01(R, prog):
    jobs = [("inner", inner, R, prog), ("multiexp:refuse", multi_refuse, R, prog), ("too_large", too_large, R, prog)]
    for cpus in range(1, 6):
        jobs.append(("collapse:%d" % cpus, collapse, R, prog, range(1, 28), cpus))
    for n, cpus in ((0, 1), (1, 1), (2, 1), (3, 1), (3, 2), (4, 3), (5, 2), (7, 3), (9, 2), (33, 1)):
        jobs.append(("multiexp:%d,%d" % (n, cpus), multiexp, R, prog, n, cpus))
    big = ((1098, 1), (56, 1)) if os.environ.get("VERIF_TIER") == "thorough" else ()
    for n, cpus in SPARSE + big:
        jobs.append(("multiexp:%d,%d,sparse" % (n, cpus), multiexp, R, prog, n, cpus, True))
    # window sizes that only very long inputs reach
    for w in range(8, 15):
        jobs.append(("multiexp:window=%d" % w, multiexp, R, prog, 33, 1, True, w))
    for ln in range(0, 5):
        for cpus in (1, 2, 3, 4, 8, 16):
            jobs.append(("fft:%d,%d" % (ln, cpus), fft, R, prog, ln, cpus))
    for la, lb, cpus in ((1, 1, 1), (1, 2, 1), (2, 2, 2), (3, 2, 2), (3, 3, 3), (4, 3, 4), (5, 4, 3),
                         # domains of 16 that 3, 5 and 7 workers split unevenly
                         (5, 5, 3), (9, 8, 3), (8, 9, 5), (8, 8, 6)):
        jobs.append(("polymul:%d,%d,%d" % (la, lb, cpus), polymul, R, prog, FP, PF, la, lb, cpus))
    for cpus in (1, 2, 3, 4, 5, 6, 7, 16, 32):
        jobs.append(("params:%d" % cpus, params, R, prog, 4, cpus))
    sharing(R, prog)
    R.parallel(jobs)
