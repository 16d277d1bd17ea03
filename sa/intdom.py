"""Default domain for machine integers that are not constants: word-level value numbers with
algebraic normal forms (xor/and/or as AC operators, rotations), and bit extraction."""
from .terms import *
from . import terms as tm


def ac(op, xs):
    return T(op, *sorted(xs, key=lambda t: (0, t) if isinstance(t, int) else (1, t.id)))


def flat(op, x):
    if isinstance(x, Term) and x.op == op:
        return list(x.args)
    return [x]


def mask(w):
    return (1 << w) - 1


def bitof(x, i, w=64):
    """i-th bit of a word value as a boolean"""
    if isinstance(x, (bool, B)):
        return tob(x) if i == 0 else FALSE
    if isinstance(x, int):
        return TRUE if (x >> i) & 1 else FALSE
    if not isinstance(x, Term):
        raise TypeError(x)
    op = x.op
    if op == "bit":
        return bvar(x) if i == 0 else FALSE
    if op == "b2i":
        return x.args[0] if i == 0 else FALSE
    if op == "ite":
        return bite(x.args[0], bitof(x.args[1], i, w), bitof(x.args[2], i, w))
    if op in ("xor", "and", "or"):
        f = {"xor": bxor, "and": band, "or": bor}[op]
        r = bitof(x.args[0], i, w)
        for a in x.args[1:]:
            r = f(r, bitof(a, i, w))
        return r
    if op == "not":
        return bnot(bitof(x.args[0], i, w)) if i < x.args[1] else FALSE
    if op == "shl":
        n = x.args[1]
        return bitof(x.args[0], i - n, w) if n <= i < x.args[2] else FALSE
    if op == "shr":
        n, ww = x.args[1], x.args[2]
        return bitof(x.args[0], i + n, w) if i + n < ww else FALSE
    if op == "rotr":
        n, ww = x.args[1], x.args[2]
        return bitof(x.args[0], (i + n) % ww, w) if i < ww else FALSE
    if op == "cast":
        return bitof(x.args[0], i, w) if i < x.args[1] else FALSE
    if op == "bits":
        return x.args[0][i] if i < len(x.args[0]) else FALSE
    if op == "wide":
        # little-endian composition of words: args = (width, w0, w1, ...)
        ww = x.args[0]
        j = i // ww
        return bitof(x.args[1 + j], i % ww, w) if 1 + j < len(x.args) else FALSE
    wd = width(x)
    if wd is not None and i >= wd:
        return FALSE
    if op in ("addw", "mulw") and i >= wmax(x).bit_length():
        return FALSE
    if op == "addw":
        # the low bits of a sum depend on its operands modulo a power of two only
        for cw in (32, 64, 128):
            if i < cw < wd:
                cs = [a & mask(cw) if isinstance(a, int) else a for a in x.args[1:]]
                cs = [a for a in cs if not (isinstance(a, int) and a == 0)]
                x = cs[0] if len(cs) == 1 else T("addw", cw, *cs)
                break
        if x.op != "addw":
            return bitof(x, i, w)
    return bvar(T("bit", x, i))


def wmax(x):
    """largest value of a word"""
    if isinstance(x, int):
        return x
    if x.op == "addw":
        return min(mask(x.args[0]), sum(wmax(a) for a in x.args[1:]))
    if x.op == "mulw":
        return min(mask(x.args[0]), wmax(x.args[1]) * wmax(x.args[2]))
    if x.op == "shr":
        return wmax(x.args[0]) >> x.args[1]
    if x.op == "ite":
        return max(wmax(x.args[1]), wmax(x.args[2]))
    if x.op == "and":
        return min(wmax(a) for a in x.args)
    if x.op in ("or", "xor"):
        return mask(max(wmax(a).bit_length() for a in x.args))
    w = width(x)
    return mask(w if w is not None else 128)


def wordpoly(x):
    """integer value of a word as a polynomial (exact: no wrap-around possible)"""
    from .interp import Imprecise
    if isinstance(x, int):
        return P(x)
    if isinstance(x, (B, bool)):
        return b2f(tob(x))
    if x.op in ("bit", "b2i"):
        return b2f(bitof(x, 0))
    if x.op == "addw" and sum(wmax(a) for a in x.args[1:]) <= mask(x.args[0]):
        acc = ZERO
        for a in x.args[1:]:
            acc = acc + wordpoly(a)
        return acc
    if x.op == "mulw" and wmax(x.args[1]) * wmax(x.args[2]) <= mask(x.args[0]):
        return wordpoly(x.args[1]) * wordpoly(x.args[2])
    if x.op == "ite":
        return wordpoly(x.args[2]) + b2f(x.args[0]) * (wordpoly(x.args[1]) - wordpoly(x.args[2]))
    if x.op == "word":
        return P(T("int", x))
    acc = ZERO
    for i in range(wmax(x).bit_length()):
        acc = acc + b2f(bitof(x, i)).scale(1 << i)
    return acc


def decompose(words, fes=()):
    """defining relations between an integer / field element and its bits, oriented as a
    substitution for one bit of each"""
    sub = {}

    def relation(bits, total):
        # eliminate the lowest bit that is a plain atom
        acc = total
        piv = None
        for i, b in enumerate(bits):
            f = b2f(b)
            if piv is None and len(f.m) == 1 and f.m.get(next(iter(f.m))) == 1:
                (k, c), = f.m.items()
                if len(k) == 1 and k[0][0] not in sub:
                    piv = (k[0][0], 1 << i)
                    continue
            acc = acc - f.scale(1 << i)
        if piv is not None:
            sub[piv[0]] = acc.scale(cinv(piv[1]))

    for w in words:
        if w.op == "addw" and sum(wmax(a) for a in w.args[1:]) > mask(w.args[0]):
            continue
        relation([bitof(w, i) for i in range(wmax(w).bit_length())], wordpoly(w))
    for x in fes:
        relation([bitof(T("byte", x, i // 8), i % 8) for i in range(256)], P(x))
    return sub


def bit_sources(polys):
    """words and field elements whose bits occur in the given polynomials"""
    words, fes = {}, {}
    for p in polys:
        for a in P(p).atoms():
            t = tm._all[a]
            if t.op == "bit":
                s = t.args[0]
                if isinstance(s, Term) and s.op == "byte":
                    fes[s.args[0]] = 1
                elif isinstance(s, Term) and s.op not in ("sym", "word"):
                    words[s] = 1
            elif t.op == "int":
                words[t.args[0]] = 1
    return list(words), list(fes)


def width(x):
    if isinstance(x, Term):
        if x.op == "word":
            return x.args[1]
        if x.op in ("bit", "b2i"):
            return 1
        if x.op in ("shl", "shr", "rotr"):
            return x.args[2]
        if x.op == "not":
            return x.args[1]
        if x.op == "cast":
            return x.args[1]
        if x.op in ("addw", "mulw", "subw"):
            return x.args[0]
        if x.op == "wide":
            return x.args[0] * (len(x.args) - 1)
        if x.op == "byte":
            return 8
        if x.op == "bits":
            return len(x.args[0])
    return None


def explicit(x):
    """bit vector of a word that is given bit by bit (None for opaque words)"""
    if isinstance(x, bool):
        return (tob(x),)
    if isinstance(x, B):
        return (x,)
    if isinstance(x, int):
        return tuple(TRUE if (x >> i) & 1 else FALSE for i in range(x.bit_length())) if x >= 0 else None
    if x.op == "bits":
        return x.args[0]
    if x.op == "bit":
        return (bvar(x),)
    if x.op == "b2i":
        return (x.args[0],)
    return None


def disjoint(a, b):
    """no bit can be set in both words"""
    x, y = explicit(a), explicit(b)
    return x is not None and y is not None and all(band(p, q) is FALSE for p, q in zip(x, y))


def mkbits(bs):
    n = len(bs)
    while n and bs[n - 1] is FALSE:
        n -= 1
    bs = tuple(bs[:n])
    if all(b is TRUE or b is FALSE for b in bs):
        return sum(1 << i for i, b in enumerate(bs) if b is TRUE)
    if n == 1:
        return b2i(bs[0])
    b0 = bs[0]
    if b0.v is not None and b0.lo is FALSE and b0.hi is TRUE:
        t = tm._all[b0.v]
        if t.op == "bit" and t.args[1] == 0 and isinstance(t.args[0], Term) and width(t.args[0]) == n:
            if all(b is bitof(t.args[0], i) for i, b in enumerate(bs)):
                return t.args[0]
    return T("bits", bs)


def joinbits(c, a, b):
    x, y = explicit(a), explicit(b)
    if x is None or y is None:
        return None
    n = max(len(x), len(y))
    x = x + (FALSE,) * (n - len(x))
    y = y + (FALSE,) * (n - len(y))
    return mkbits([bite(c, p, q) for p, q in zip(x, y)])


def flatbits(x):
    """a selection between words given bit by bit, as one such word"""
    if isinstance(x, Term) and x.op == "ite":
        a, b = flatbits(x.args[1]), flatbits(x.args[2])
        if a is None or b is None:
            return None
        return joinbits(x.args[0], a, b)
    if isinstance(x, bool) or not isinstance(x, (int, Term)):
        return None
    return x if explicit(x) is not None else None


def bitop(op, a, b, bits):
    """bitwise operation on explicit words"""
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
        return None
    x, y = explicit(a), explicit(b)
    if x is None or y is None:
        return None
    n = max(len(x), len(y))
    x = x + (FALSE,) * (n - len(x))
    y = y + (FALSE,) * (n - len(y))
    f = {"BitAnd": band, "BitOr": bor, "BitXor": bxor}[op]
    return mkbits([f(p, q) for p, q in zip(x, y)])


NOCARRY = ("bits", "and", "cast", "shl", "shr")


class WordDom:
    word = ()  # value class of a richer word domain

    def eqconst(self, I, v, c):
        if isinstance(v, Term):
            if v.op in ("bit",):
                b = bvar(v)
                return b if c == 1 else bnot(b) if c == 0 else FALSE
            if v.op == "b2i":
                return v.args[0] if c == 1 else bnot(v.args[0]) if c == 0 else FALSE
            if v.op == "ite":
                return bite(v.args[0], self.eqconst(I, v.args[1], c), self.eqconst(I, v.args[2], c))
            if v.op == "addw" and len(v.args) == 3 and isinstance(v.args[2], int):
                return self.eqconst(I, v.args[1], (c - v.args[2]) % (1 << v.args[0]))
            if v.op == "subw" and isinstance(v.args[2], int):
                return self.eqconst(I, v.args[1], (c + v.args[2]) % (1 << v.args[0]))
            if v.op == "bits":
                r = TRUE
                for i, b in enumerate(v.args[0]):
                    r = band(r, b if (c >> i) & 1 else bnot(b))
                return r if c >> len(v.args[0]) == 0 else FALSE
            if v.op in ("and", "or", "xor", "shl", "shr"):
                w = width(v) or 64
                try:
                    bs = [bitof(v, i) for i in range(w)]
                except (TypeError, AttributeError):
                    bs = None
                if bs is not None and sum(1 for b in bs if b is not TRUE and b is not FALSE) <= 8:
                    r = TRUE if c >> w == 0 else FALSE
                    for i, b in enumerate(bs):
                        r = band(r, b if (c >> i) & 1 else bnot(b))
                    return r
            return bvar(T("eq", c, v))
        if isinstance(v, (B, bool)):
            b = tob(v)
            return b if c == 1 else bnot(b) if c == 0 else FALSE
        if isinstance(v, int):
            return TRUE if v == c else FALSE
        raise TypeError(v)

    def cast(self, I, v, a, b):
        if isinstance(v, Term):
            if v.op in ("bit", "b2i"):
                return v
            if v.op == "bits":
                return mkbits(v.args[0][: b[0]])
            if v.op == "ite":
                return I.ite(v.args[0], self.castx(I, v.args[1], a, b), self.castx(I, v.args[2], a, b))
            w = width(v) or a[0]
            if b[0] >= w:
                return v
            if v.op == "wide" and v.args[0] == b[0]:
                return v.args[1]
            if v.op in ("xor", "and", "or"):
                return self.nary(v.op, [self.castx(I, x, a, b) for x in v.args], b[0])
            if v.op == "shr" and isinstance(v.args[0], Term) and v.args[0].op == "wide" and v.args[0].args[0] == b[0] and v.args[1] % b[0] == 0:
                j = v.args[1] // b[0]
                return v.args[0].args[1 + j] if 1 + j < len(v.args[0].args) else 0
            if v.op == "addw" and b[0] < v.args[0]:
                return self.add([x & mask(b[0]) if isinstance(x, int) else x for x in v.args[1:]], b[0])
            return T("cast", v, b[0])
        return I.top("cast", b[0])

    def castx(self, I, v, a, b):
        if isinstance(v, int):
            return v & mask(b[0])
        return self.cast(I, v, a, b)

    def unop(self, I, op, a, bits):
        if op == "not":
            if isinstance(a, Term) and a.op == "not":
                return a.args[0]
            x = explicit(a)
            if x is not None:
                return mkbits([bnot(b) for b in x + (FALSE,) * (bits - len(x))])
            return T("not", a, bits)
        return T(op, a, bits)

    def nary_or(self, xs, bits):
        r = bitop("BitOr", xs[0], xs[1], bits)
        return r if r is not None else self.nary("or", xs, bits)

    def nary(self, op, xs, bits):
        c = {"xor": 0, "and": mask(bits), "or": 0}[op]
        ts = {}
        for x in xs:
            for y in flat(op, x):
                if isinstance(y, (bool, B)):
                    y = 1 if y in (True, TRUE) else 0 if y in (False, FALSE) else T("b2i", y)
                if isinstance(y, int):
                    c = c ^ y if op == "xor" else c & y if op == "and" else c | y
                elif op == "xor":
                    if y.id in ts:
                        del ts[y.id]
                    else:
                        ts[y.id] = y
                else:
                    ts[y.id] = y
        if op == "and" and c == 0:
            return 0
        if op == "or" and c == mask(bits):
            return c
        l = list(ts.values())
        ident = {"xor": 0, "and": mask(bits), "or": 0}[op]
        if not l:
            return c
        if c != ident:
            if op == "and" and c == 1 and len(l) == 1:
                t = l[0]
                b = bitof(t, 0)
                return b2i(b)
            l.append(c)
        if len(l) == 1:
            return l[0]
        return ac(op, l)

    def add(self, xs, bits):
        if len(xs) == 2 and any(isinstance(x, Term) for x in xs) and disjoint(*xs):
            return self.nary_or(xs, bits)
        c = 0
        ts = []
        for x in xs:
            if isinstance(x, Term) and x.op == "addw" and x.args[0] >= bits:
                for y in x.args[1:]:
                    if isinstance(y, int):
                        c += y
                    else:
                        ts.append(y)
            elif isinstance(x, int):
                c += x
            else:
                ts.append(x)
        c &= mask(bits)
        if not ts:
            return c
        if len(ts) == 1 and c == 0:
            return ts[0]
        if len(ts) == 1 and ts[0].op in NOCARRY and all(
                bitof(ts[0], i) is FALSE for i in range(bits) if c >> i & 1):
            return self.nary("or", [ts[0], c], bits)  # no carries
        ts.sort(key=lambda t: t.id)
        return T("addw", bits, *(ts + ([c] if c else [])))

    def binop(self, I, op, a, b, bits, sg):
        for x in (a, b):
            if not isinstance(x, (int, Term, B)):
                raise_imprecise("binop %s on %r" % (op, type(x)))
        if isinstance(a, B):
            a = b2i(a)
        if isinstance(b, B):
            b = b2i(b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            r = bitop(op, a, b, bits)
            if r is not None:
                return r
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked") and isinstance(b, int) and not isinstance(a, int):
            x = explicit(a)
            if x is not None:
                n = b & (bits - 1)
                return mkbits(((FALSE,) * n + x)[:bits] if op.startswith("Shl") else x[n:])
        if op == "BitXor":
            return self.nary("xor", [a, b], bits)
        if op == "BitAnd":
            return self.nary("and", [a, b], bits)
        if op == "BitOr":
            # (x >> n) | (x << (w-n)) is a rotation
            for x, y in ((a, b), (b, a)):
                if (
                    isinstance(x, Term) and isinstance(y, Term) and x.op == "shr" and y.op == "shl"
                    and x.args[0] is y.args[0] and x.args[1] + y.args[1] == bits
                ):
                    return T("rotr", x.args[0], x.args[1], bits)
            return self.nary("or", [a, b], bits)
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            o = "shl" if op.startswith("Shl") else "shr"
            if isinstance(b, int):
                b &= bits - 1
                if b == 0:
                    return a
                if isinstance(a, int):
                    return (a << b) & mask(bits) if o == "shl" else a >> b
                if isinstance(a, Term) and a.op == o:
                    n = a.args[1] + b
                    return T(o, a.args[0], n, bits) if n < bits else 0
                if o == "shr" and isinstance(a, Term) and a.op in ("bit", "b2i"):
                    return 0
                return T(o, a, b, bits)
            return T(o + "v", a, b, bits)
        if op in ("Add", "AddUnchecked"):
            return self.add([a, b], bits)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = self.binop(I, op[:3], a, b, bits, sg)
            I.assumed.add("no-overflow")
            from .interp import tup
            if not sg and op[0] == "A" and disjoint(a, b) and max(len(explicit(a)), len(explicit(b))) <= bits:
                return tup(r, FALSE)
            if not sg and op[0] == "A":
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, int) and 0 <= x <= mask(bits) and isinstance(y, Term) and y.op in NOCARRY and all(
                            bitof(y, i) is FALSE for i in range(bits) if x >> i & 1):
                        return tup(r, FALSE)  # no carries
            if not sg and op[0] == "M":
                for x, y in ((a, b), (b, a)):
                    if isinstance(y, int) and y > 0 and y & (y - 1) == 0 and explicit(x) is not None:
                        o = FALSE
                        for q in explicit(x)[bits - y.bit_length() + 1:]:
                            o = bor(o, q)
                        return tup(r, o)
            x = explicit(a) if op[0] == "S" and not sg and isinstance(b, int) and 0 <= b <= 16 and isinstance(a, Term) else None
            if x is not None:
                o = FALSE
                for k in range(b):
                    o = bor(o, self.eqconst(I, a, k))
                return tup(r, o)
            return tup(r, bvar(T("ovf", op[:3], a, b, bits)))
        if op in ("Sub", "SubUnchecked"):
            if a is b:
                return 0
            if b == 0:
                return a
            return T("subw", bits, a, b)
        if op in ("Mul", "MulUnchecked"):
            if a == 0 or b == 0:
                return 0
            if a == 1:
                return b
            if b == 1:
                return a
            for x, y in ((a, b), (b, a)):
                if not sg and isinstance(y, int) and y > 0 and y & (y - 1) == 0 and isinstance(x, Term) and (x.op in WORDS or explicit(x) is not None):
                    return self.binop(I, "Shl", x, y.bit_length() - 1, bits, sg)
            return T("mulw", bits, *sorted([a, b], key=lambda t: -1 if isinstance(t, int) else t.id))
        if op in ("Eq", "Ne"):
            if a is b:
                r = TRUE
            elif isinstance(a, int) or isinstance(b, int):
                if isinstance(a, int):
                    a, b = b, a
                r = self.eqconst(I, a, b)
            else:
                x, y = sorted([a, b], key=lambda t: t.id)
                r = bvar(T("eq", x, y))
            return r if op == "Eq" else bnot(r)
        if op in ("Lt", "Ge"):
            if a is b:
                r = FALSE
            else:
                r = bvar(T("lt", a, b))
            return r if op == "Lt" else bnot(r)
        if op in ("Gt", "Le"):
            if a is b:
                r = FALSE
            else:
                r = bvar(T("lt", b, a))
            return r if op == "Gt" else bnot(r)
        if op in ("Div", "Rem"):
            if not sg and isinstance(b, int) and b > 0 and b & (b - 1) == 0 and not isinstance(a, int):
                x = explicit(a)
                if x is not None:
                    n = b.bit_length() - 1
                    return mkbits(x[:n] if op == "Rem" else x[n:])
                if isinstance(a, Term) and a.op in WORDS:
                    return self.binop(I, "BitAnd", a, b - 1, bits, sg) if op == "Rem" else self.binop(
                        I, "Shr", a, b.bit_length() - 1, bits, sg)
            return T(op.lower(), a, b)
        if op == "Cmp":
            return T("cmp", a, b)
        raise_imprecise("int op " + op)


# machine words whose bits are known individually
WORDS = ("word", "bits", "and", "or", "xor", "shl", "shr", "rotr", "cast")


def b2i(b):
    if b is TRUE:
        return 1
    if b is FALSE:
        return 0
    if b.lo is FALSE and b.hi is TRUE and tm._all[b.v].op == "bit":
        return tm._all[b.v]
    return T("b2i", b)


def raise_imprecise(m):
    from .interp import Imprecise

    raise Imprecise(m)
