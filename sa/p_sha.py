"""SHA-256: the hash gadgets are interpreted with summaries for the word operations (each summary is
re-established by the word and boolean obligations in the same run) and compared, bit by bit in
canonical form, with FIPS 180-4 written down independently."""
from .gad import *
from . import terms as tm
from .intdom import bitof, mask

U32 = "gadgets::uint32::UInt32"
M32 = mask(32)


# ---------------------------------------------------------------- canonical words modulo 2^32
def linof(bits):
    """word (32 bits, least significant first) -> (constant, {atom: coefficient})"""
    if all(b is TRUE or b is FALSE for b in bits):
        return sum(1 << i for i, b in enumerate(bits) if b is TRUE), {}
    t = None
    b0 = bits[0]
    if b0 is not TRUE and b0 is not FALSE and b0.lo is FALSE and b0.hi is TRUE:
        t0 = tm._all[b0.v]
        if t0.op == "bit" and isinstance(t0.args[0], Term) and t0.args[0].op == "lin":
            L_ = t0.args[0]
            if all(b is bvar(T("bit", L_, i)) for i, b in enumerate(bits)):
                return L_.args[0], dict(L_.args[1])
    return 0, {T("watom", tuple(bits)): 1}


def addwords(ws):
    c, acc = 0, {}
    for w in ws:
        k, m = linof(w)
        c = (c + k) & M32
        for a, n in m.items():
            acc[a] = (acc.get(a, 0) + n) & M32
    acc = {a: n for a, n in acc.items() if n}
    if not acc:
        return [TRUE if (c >> i) & 1 else FALSE for i in range(32)]
    if c == 0 and len(acc) == 1:
        a, n = next(iter(acc.items()))
        if n == 1:
            return list(a.args[0])
    L_ = T("lin", c, tuple(sorted(acc.items(), key=lambda x: x[0].id)))
    return [bvar(T("bit", L_, i)) for i in range(32)]


# ---------------------------------------------------------------- FIPS 180-4
def primes(n):
    out, x = [], 2
    while len(out) < n:
        if all(x % p for p in out):
            out.append(x)
        x += 1
    return out


def root_frac(n, k):
    """first 32 bits of the fractional part of the k-th root of n"""
    v = n << (32 * k)
    lo, hi = 0, 1 << 40
    while hi - lo > 1:
        m = (lo + hi) // 2
        if m ** k <= v:
            lo = m
        else:
            hi = m
    return lo & M32


K = [root_frac(p, 3) for p in primes(64)]
H0 = [root_frac(p, 2) for p in primes(8)]


def cw(v):
    return [TRUE if (v >> i) & 1 else FALSE for i in range(32)]


def rotr(w, n):
    return [w[(i + n) % 32] for i in range(32)]


def shr(w, n):
    return [w[i + n] if i + n < 32 else FALSE for i in range(32)]


def xor3(a, b, c):
    return [bxor(bxor(x, y), z) for x, y, z in zip(a, b, c)]


def ref_compress(h, block):
    w = [block[32 * i:32 * i + 32][::-1] for i in range(16)]
    for i in range(16, 64):
        s0 = xor3(rotr(w[i - 15], 7), rotr(w[i - 15], 18), shr(w[i - 15], 3))
        s1 = xor3(rotr(w[i - 2], 17), rotr(w[i - 2], 19), shr(w[i - 2], 10))
        w.append(addwords([w[i - 16], s0, w[i - 7], s1]))
    a, b, c, d, e, f, g, hh = h
    for i in range(64):
        S1 = xor3(rotr(e, 6), rotr(e, 11), rotr(e, 25))
        ch = [bite(x, y, z) for x, y, z in zip(e, f, g)]
        t1 = [hh, S1, ch, cw(K[i]), w[i]]
        S0 = xor3(rotr(a, 2), rotr(a, 13), rotr(a, 22))
        mj = [bor(band(x, y), bor(band(x, z), band(y, z))) for x, y, z in zip(a, b, c)]
        hh, g, f = g, f, e
        e = addwords(t1 + [d])
        d, c, b = c, b, a
        a = addwords(t1 + [S0, mj])
    return [addwords([x, y]) for x, y in zip(h, [a, b, c, d, e, f, g, hh])]


def ref_sha256(msg):
    n = len(msg)
    p = list(msg) + [TRUE]
    while len(p) % 512 != 448:
        p.append(FALSE)
    p += [TRUE if (n >> i) & 1 else FALSE for i in range(63, -1, -1)]
    h = [cw(x) for x in H0]
    for i in range(0, len(p), 512):
        h = ref_compress(h, p[i:i + 512])
    return [b for w in h for b in w[::-1]]


# ---------------------------------------------------------------- summaries
class Sha:
    def __init__(self, prog, mode):
        self.g = G(prog, mode)
        self.I = self.g.I
        self.calls = {}
        h = self.I.hooks
        for n, f in (("xor", bxor), ("and", band)):
            h["gadgets::boolean::Boolean::" + n] = self.boolop(n, f, 2)
        maj = lambda a, b, c: bor(band(a, b), bor(band(a, c), band(b, c)))
        h["gadgets::boolean::Boolean::sha256_ch"] = self.boolop("ch", bite, 3)
        h["gadgets::boolean::Boolean::sha256_maj"] = self.boolop("maj", maj, 3)
        for n, f, k in (("xor", bxor, 2), ("sha256_ch", bite, 3), ("sha256_maj", maj, 3)):
            h[U32 + "::" + n] = self.wordop(n, f, k)
        h[U32 + "::addmany"] = self.addmany

    def count(self, n):
        self.calls[n] = self.calls.get(n, 0) + 1

    def meaning(self, b):
        I = self.I
        b = I.strip(b)
        k = variant(I, b)
        if k == "Constant":
            return tob(I.resolve(b.f[0]))
        var = field(I, b.f[0], "var")
        if not (isinstance(var, Term) and var.op == "var" and var.args[0] == "sem"):
            raise Imprecise("bit from an unsummarised allocation: %r" % (var,))
        m = var.args[1]
        v = field(I, b.f[0], "value")
        if self.g.mode == "prove" and (v.var == 0 or tob(I.strip(v.f[0])) is not m):
            raise Imprecise("a bit carries a value different from its meaning")
        return m if k == "Is" else bnot(m)

    def mkbool(self, m, alloc=False):
        I = self.I
        if m is TRUE or m is FALSE:
            return mke(I, BOOL, "Constant", m is TRUE)
        return mke(I, BOOL, "Is", mks(I, BIT, value=self.g.opt(m), var=T("var", "sem", m)))

    def bits(self, w):
        I = self.I
        bs = [self.meaning(b) for b in I.items(L.as_slice(I, field(I, w, "bits")))]
        if len(bs) != 32:
            raise Imprecise("word of %d bits" % len(bs))
        return bs

    def mkword(self, ms):
        I = self.I
        const = all(m is TRUE or m is FALSE for m in ms)
        W = sum(1 << i for i, m in enumerate(ms) if m is TRUE) if const else T("bits", tuple(ms))
        return mks(I, U32, bits=I.vec([self.mkbool(m) for m in ms]),
                   value=some(W) if const or self.g.mode == "prove" else NONE)

    def note(self, n, xs):
        self.count(n)
        self.I.st.emit(("call", n, tuple(self.form(x) for x in xs)))

    def form(self, x):
        """what a word operation's shape depends on: which bits are constants, and which ones"""
        I = self.I
        x = I.strip(x)
        if isinstance(x, Agg) and x.ty == U32:
            return tuple(self.form(b) for b in I.items(L.as_slice(I, field(I, x, "bits"))))
        k = variant(I, x)
        return (k, tob(I.resolve(x.f[0])) is TRUE) if k == "Constant" else k

    def gadget_args(self, args):
        return [a for a in args if not self.is_cs(a)]

    def is_cs(self, a):
        x = self.I.strip(a)
        return isinstance(x, C.CSV) or isinstance(x, Agg) and "Namespace" in str(x.ty)

    def dropcs(self, args):
        for a in args:
            if isinstance(a, Agg):
                self.I.drop_value(a, self.I.ref(a), None)

    def boolop(self, n, f, k):
        def h(I, c, args, fr):
            xs = self.gadget_args(args)
            self.dropcs(args)
            if len(xs) != k:
                raise Imprecise("operands of %s" % n)
            self.note(n, xs)
            return ok(self.mkbool(f(*[self.meaning(x) for x in xs])))
        return h

    def wordop(self, n, f, k):
        def h(I, c, args, fr):
            xs = self.gadget_args(args)
            self.dropcs(args)
            if len(xs) != k:
                raise Imprecise("operands of %s" % n)
            self.note("word." + n, xs)
            ws = [self.bits(I.strip(x)) for x in xs]
            return ok(self.mkword([f(*t) for t in zip(*ws)]))
        return h

    def addmany(self, I, c, args, fr):
        xs = self.gadget_args(args)
        self.dropcs(args)
        ops = I.items(L.as_slice(I, xs[0]))
        if not 2 <= len(ops) <= 10:
            raise Diverge("addmany with %d operands panics" % len(ops))
        self.note("addmany", ops)
        return ok(self.mkword(addwords([self.bits(I.strip(o)) for o in ops])))


def check_sha(R, prog):
    from . import p_gadgets as pg
    tm.reset()
    R.check("reference:constants", K[0] == 0x428a2f98 and K[63] == 0xc67178f2 and H0[0] == 0x6a09e667 and H0[7] == 0x5be0cd19, "reference constants")

    def one(key, path, n, kinds, ref):
        shapes = {}
        for mode in ("prove", "verify") if key.startswith("block") or n == 0 or R.only else ("prove",):
            tm.reset()
            s = Sha(prog, mode)
            I = s.I
            msg, bs = [], []
            for i in range(n):
                k = kinds[i % len(kinds)]
                if k in "TF":
                    msg.append(TRUE if k == "T" else FALSE)
                    bs.append(mke(I, BOOL, "Constant", k == "T"))
                else:
                    m = bvar(T("bit", T("sym", "m"), i))
                    msg.append(m if k == "Is" else bnot(m))
                    bs.append(mke(I, BOOL, k, mks(I, BIT, value=s.g.opt(m), var=T("var", "sem", m))))
            r = s.g.unwrap(s.g.call(path, I.slice(bs)))
            out = [s.meaning(b) for b in I.items(L.as_slice(I, I.strip(r)))]
            want = ref(msg)
            R.check("%s/%s:length" % (key, mode), len(out) == 256, "%d output bits" % len(out))
            for i, (x, y) in enumerate(zip(out, want)):
                R.check("%s/%s:digest" % (key, mode), x is y, "digest bit %d differs from SHA-256" % i,
                        "canonical form of every digest bit equals the FIPS 180-4 value")
            c = s.g.finish()
            R.check("%s/%s:constraints" % (key, mode), not c.equations() and not c.branches and not c.vars,
                    "constraints outside the word operations")
            R.check("%s/%s:namespaces" % (key, mode), c.ns == 0 and c.minns >= 0, "namespaces unbalanced by %d" % c.ns)
            pan = [x for x in I.panics if x[0] is not FALSE and "assert:" not in x[1]]
            R.check("%s/%s:panics" % (key, mode), not pan, "may panic: %s" % (pan[:2],))
            R.analysed |= I.analysed
            R.notes.setdefault("word_operations", {})["%s/%s" % (key, mode)] = dict(s.calls)
            shapes[mode] = C.shape(I.st.events)
        if len(shapes) == 2:
            R.check(key + ":shape", shapes["prove"] == shapes["verify"] and len(shapes["prove"]) > 0, "constraints depend on the witness",
                    "the sequences of word operations with and without a witness are equal")
        return True

    lens = [0, 8, 448] if R.only else [0, 8, 440, 448, 504, 512, 960]
    P_ = "gadgets::sha256::"
    jobs = [("sha256/%d" % n, one, "sha256/%d" % n, P_ + "sha256", n, ["Is"], ref_sha256) for n in lens]
    jobs.append(("sha256/mixed", one, "sha256/mixed", P_ + "sha256", 520, ["Is", "Not", "T", "Is", "F"], ref_sha256))
    for k, kinds in (("is", ["Is"]), ("mixed", ["Not", "Is", "F", "T", "Is"])):
        jobs.append(("block/" + k, one, "block/" + k, P_ + "sha256_block_no_padding", 512, kinds,
                     lambda m: [b for w in ref_compress([cw(x) for x in H0], m) for b in w[::-1]]))
    jobs.sort(key=lambda j: -j[4])
    rs = R.parallel(jobs + pg.sha_op_jobs(R, prog))
    R.floor("hash instances", sum(rs[:len(jobs)]), len(lens) + 3)
