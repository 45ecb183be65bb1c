"""Abstract domain: hash-consed provenance terms, bit-vectors, boolean formulas and guards.

A symbolic integer is a tuple of bits; a bit is 0, 1 or a boolean formula.  A formula is built
from atoms: a bit of a term, membership of a term in a set of intervals, equality of pairs of bits,
and named predicates (did this primitive step succeed, is this word listed, ...).  A guard is a
conjunction of decided atoms.  There is no solver: a guard decides a formula only by evaluating
its atoms.
"""
import bisect
import re


# the white space of Unicode (Python's own notion has four characters more)
WS = "".join(chr(c) for c in (9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, *range(0x2000, 0x200b), 0x2028, 0x2029, 0x202f, 0x205f, 0x3000))


class Undecided(Exception):
    """The analysis met code it has no abstract meaning for."""


class Budget(Undecided):
    """the whole analysis of an entry point ran out of a bound"""


class Term:
    __slots__ = ("op", "args", "w", "id", "_rec", "_lv")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def T(op, *args, w=None):
    k = (op, args, w)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.w, t.id, t._rec, t._lv = op, args, w, len(_tab), None, None
        _tab[k] = t
    return t


TRUE = T("true")
FALSE = T("false")


def isT(x, *ops):
    return type(x) is Term and (not ops or x.op in ops)


def show(x, d=0):
    if type(x) is Term:
        if x.op == "bv":
            r = recover(x)
            if r:
                k, t, n = r
                s = show(t, d + 1)
                if n:
                    s += "<<%d" % n if k == "z" else ">>%d" % n
                return s
            return "bv%d" % x.w
        if not x.args:
            return x.op
        if d > 3:
            return x.op + "(..)"
        if x.op == "b":
            return "%s.%d" % (show(x.args[0], d + 1), x.args[1])
        if x.op == "in":
            return "%s in %s" % (show(x.args[0], d + 1), list(x.args[1]))
        if x.op == "not":
            return "!" + show(x.args[0], d)
        if x.op == "p":
            return "%s(%s)" % (x.args[0], ",".join(show(a, d + 1) for a in x.args[1:]))
        return "%s(%s)" % (x.op, ",".join(show(a, d + 1) for a in x.args))
    if isinstance(x, tuple):
        if d > 4:
            return ".."
        if len(x) > 14:
            return "(" + ",".join(show(a, d + 1) for a in x[:6]) + ",..#%d)" % len(x)
        return "(" + ",".join(show(a, d + 1) for a in x) + ")"
    return repr(x)


# ------------------------------------------------------------------------------------- formulas
def Not(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == "not":
        return f.args[0]
    return T("not", f)


def _nary(op, fs):
    unit, zero = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
    out = set()
    for f in fs:
        if f is unit:
            continue
        if f is zero:
            return zero
        if f.op == op:
            out.update(f.args)
        else:
            out.add(f)
    for f in out:
        if Not(f) in out:
            return zero
    if not out:
        return unit
    if op == "and":
        eq = [f for f in out if f.op == "eqs"]
        if len(eq) > 1:
            pairs = set()
            for f in eq:
                pairs.update(f.args)
                out.discard(f)
            out.add(mk_eqs(pairs))
    if len(out) == 1:
        return next(iter(out))
    return T(op, *sorted(out))


def And(*fs):
    return _nary("and", fs)


def Or(*fs):
    return _nary("or", fs)


def ff(bit):
    return FALSE if bit == 0 and type(bit) is int else TRUE if type(bit) is int else bit


def fb(f):
    return 0 if f is FALSE else 1 if f is TRUE else f


def P(name, *args):
    return T("p", name, *args)


def bit_eq(a, b):
    """formula for equality of two bits"""
    if type(a) is int and type(b) is int:
        return TRUE if a == b else FALSE
    if type(a) is int:
        return b if a else Not(b)
    if type(b) is int:
        return a if b else Not(a)
    if a is b:
        return TRUE
    if a is Not(b):
        return FALSE
    return mk_eqs([(a, b)])


def mk_eqs(pairs):
    ps = sorted({(x, y) if x < y else (y, x) for x, y in pairs}, key=lambda p: (p[0].id, p[1].id))
    return T("eqs", *ps)


def Eqs(pairs):
    """conjunction of bit equalities"""
    fs, ps = [], []
    for a, b in pairs:
        f = bit_eq(a, b)
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        if f.op == "eqs":
            ps.extend(f.args)
        else:
            fs.append(f)
    if ps:
        fs.append(mk_eqs(ps))
    return And(*fs)


def b_and(a, b):
    if type(a) is int:
        return b if a else 0
    if type(b) is int:
        return a if b else 0
    return fb(And(a, b))


def b_or(a, b):
    if type(a) is int:
        return 1 if a else b
    if type(b) is int:
        return 1 if b else a
    return fb(Or(a, b))


def b_not(a):
    return 1 - a if type(a) is int else Not(a)


def b_xor(a, b):
    if type(a) is int:
        return b_not(b) if a else b
    if type(b) is int:
        return b_not(a) if b else a
    if a is b:
        return 0
    f = bit_eq(a, b)
    return fb(Not(f))


# ---------------------------------------------------------------------------------- bit vectors
def mkbv(bits):
    n = 0
    for i, b in enumerate(bits):
        if type(b) is not int:
            return T("bv", *bits, w=len(bits))
        n |= b << i
    return n


def bits(v, w):
    if type(v) is int:
        return tuple((v >> i) & 1 for i in range(w))
    if v.op != "bv":
        v = tv(v)
    b = v.args
    return b[:w] if len(b) >= w else b + (0,) * (w - len(b))


def nb(t):
    """number of bits that can be non-zero"""
    return natural(t)[1].bit_length()


def tv(t, w=None):
    """the integer value denoted by term t (zero-extended to w)"""
    if type(t) is int:
        return t & ((1 << w) - 1) if w else t
    if t.op == "bv":
        return t if w is None or w == t.w else mkbv(bits(t, w))
    n = nb(t)
    b = tuple(T("b", t, i) if i < n else 0 for i in range(t.w))
    if w is not None:
        b = b[:w] + (0,) * (w - len(b))
    return mkbv(b)


def recover(v):
    """('z', t, k): v = t << k exactly; ('s', t, k): v = t >> k; None otherwise"""
    if v._rec is not None:
        return v._rec or None
    bs = v.args
    r = False
    n = len(bs)
    lo = 0
    while lo < n and bs[lo] == 0 and type(bs[lo]) is int:
        lo += 1
    hi = n
    while hi > lo and type(bs[hi - 1]) is int and bs[hi - 1] == 0:
        hi -= 1
    mid = bs[lo:hi]
    if mid and all(type(x) is Term and x.op == "b" for x in mid):
        t = mid[0].args[0]
        if all(x.args[0] is t and x.args[1] == mid[0].args[1] + j for j, x in enumerate(mid)):
            s = mid[0].args[1]
            if s == 0 and len(mid) == nb(t):
                r = ("z", t, lo)
            elif lo == 0 and s + len(mid) == nb(t):
                r = ("s", t, s)
    v._rec = r
    return r or None


def lin_of(v, w):
    """integer value as ({term: coeff}, const)"""
    if type(v) is int:
        return {}, v
    if v.op != "bv":
        v = tv(v)
    r = recover(v)
    if r and r[0] == "z":
        t, k = r[1], r[2]
        if t.op == "lin" and t.w == w and k == 0:
            return dict(t.args[0]), t.args[1]
        return {t: 1 << k}, 0
    return {v: 1}, 0


def mk_lin(d, c, w):
    M = (1 << w) - 1
    d = {t: k & M for t, k in d.items() if k & M}
    c &= M
    if not d:
        return c
    if len(d) == 1:
        (t, k), = d.items()
        if c == 0 and k & (k - 1) == 0:
            sh = k.bit_length() - 1
            if t.op == "lin" and t.w != w and sh == 0 and t.w > w:
                pass
            return mkbv(((0,) * sh + bits(tv(t), max(w, t.w)))[:w])
        if k & (k - 1) == 0 and c < k and c >= 0:
            # disjoint low constant
            sh = k.bit_length() - 1
            b = ((0,) * sh + bits(tv(t), max(w, t.w)))[:w]
            return mkbv(tuple(((c >> i) & 1) if i < sh else b[i] for i in range(w)))
        if k == 1 and t.w >= w and c == 1 << (w - 1):
            # adding the top bit flips it
            b = list(bits(tv(t), w))
            b[w - 1] = b_not(b[w - 1])
            return mkbv(tuple(b))
    return tv(T("lin", tuple(sorted(d.items(), key=lambda x: x[0].id)), c, w=w))


def add(a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & ((1 << w) - 1)
    x, y = bits(a, w), bits(b, w)
    if all((type(p) is int and p == 0) or (type(q) is int and q == 0) for p, q in zip(x, y)):
        return mkbv(tuple(p if not (type(p) is int and p == 0) else q for p, q in zip(x, y)))
    da, ca = lin_of(a, w)
    db, cb = lin_of(b, w)
    for t, k in db.items():
        da[t] = da.get(t, 0) + k
    return mk_lin(da, ca + cb, w)


def neg(a, w):
    d, c = lin_of(a, w)
    return mk_lin({t: -k for t, k in d.items()}, -c, w)


def sub(a, b, w):
    if type(a) is int and type(b) is int:
        return (a - b) & ((1 << w) - 1)
    if type(b) is int and type(a) is Term:
        # clearing a set of bits known to be one is handled by the guard-aware caller
        pass
    da, ca = lin_of(a, w)
    db, cb = lin_of(b, w)
    for t, k in db.items():
        da[t] = da.get(t, 0) - k
    return mk_lin(da, ca - cb, w)


def mul(a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) & ((1 << w) - 1)
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b & (b - 1) == 0:
            return shl(a, b.bit_length() - 1, w)
        d, c = lin_of(a, w)
        return mk_lin({t: k * b for t, k in d.items()}, c * b, w)
    x, y = sorted((a, b))
    return tv(T("mul", x, y, w=w))


def shl(a, n, w):
    if type(a) is int:
        return (a << n) & ((1 << w) - 1)
    return mkbv(((0,) * n + bits(a, w))[:w])


def shr(a, n, w, signed=False):
    b = bits(a, w)
    fill = b[-1] if signed else 0
    return mkbv(tuple(b[i + n] if i + n < w else fill for i in range(w)))


def rotl(a, n, w):
    b = bits(a, w)
    n %= w
    return mkbv(tuple(b[(i - n) % w] for i in range(w)))


def bitop(op, a, b, w):
    f = {"and": b_and, "or": b_or, "xor": b_xor}[op]
    return mkbv(tuple(f(x, y) for x, y in zip(bits(a, w), bits(b, w))))


def bvnot(a, w):
    return mkbv(tuple(b_not(x) for x in bits(a, w)))


def trunc(a, w):
    if type(a) is int:
        return a & ((1 << w) - 1)
    if a.op != "bv":
        a = tv(a)
    if a.w <= w:
        return a
    r = recover(a)
    if r and r[0] == "z" and r[2] == 0 and r[1].op == "lin" and r[1].w == a.w:
        return mk_lin(dict(r[1].args[0]), r[1].args[1], w)
    return mkbv(a.args[:w])


# ------------------------------------------------------------------------------------ intervals
def iv_norm(ivs):
    ivs = sorted(i for i in ivs if i[0] <= i[1])
    out = []
    for lo, hi in ivs:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return tuple(out)


def iv_and(a, b):
    if len(a) * len(b) <= 16:
        out = []
        for x in a:
            for y in b:
                lo, hi = max(x[0], y[0]), min(x[1], y[1])
                if lo <= hi:
                    out.append((lo, hi))
        return iv_norm(out)
    if len(a) > len(b):
        a, b = b, a
    out = []
    if len(a) * 8 < len(b):
        for l, h in a:
            i = bisect.bisect_left(b, (l,))
            if i and b[i - 1][1] >= l:
                i -= 1
            while i < len(b) and b[i][0] <= h:
                out.append((max(l, b[i][0]), min(h, b[i][1])))
                i += 1
        return iv_norm(out) if len(a) > 1 else tuple(out)
    i = j = 0
    while i < len(a) and j < len(b):
        lo, hi = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_or(a, b):
    return iv_norm(tuple(a) + tuple(b))


def iv_not(a, w):
    out, p = [], 0
    for lo, hi in a:
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= (1 << w) - 1:
        out.append((p, (1 << w) - 1))
    return tuple(out)


def iv_size(a):
    return sum(h - l + 1 for l, h in a)


MAXLEN = 1 << 58     # no object is longer than this many bytes


def natural(t):
    """interval of values a term can take whatever the guard"""
    if t.op == "len":
        x = t.args[0]
        if type(x) is Term:
            if x.op in ("b58c", "b58p") and not any(isT(e, "sp") for e in x.args[0]):
                n = len(x.args[0]) + (4 if x.op == "b58c" else 0)
                return (n, digits58(n))
            if x.op == "word":
                return (1, 32)
            if x.op == "dec":
                return (1, 20)
            if x.op in ("wsword", "nonempty"):
                return (1, MAXLEN)
            if x.op == "nfkd" and isT(x.args[0], "wsword"):
                return (1, MAXLEN)
        return (0, MAXLEN)
    if t.op == "nibc":
        return (48, 70 if t.args[1] else 102)
    if t.op == "byte" and isT(t.args[0], "b58c", "b58p"):
        return (49, 122)
    if t.op == "encbyte" and type(t.args[2]) is int and t.args[2] <= 122:
        return (0, 122)
    if t.op in ("b58tot", "cnt"):
        return (0, MAXLEN)
    if t.op == "recid":
        return (0, 3)
    if t.op == "lin":
        lo = hi = t.args[1]
        M = 1 << t.w
        for x, k in t.args[0]:
            if k > M // 2:
                return (0, M - 1)
            l, h = natural(x)
            lo += l * k
            hi += h * k
        if hi < M:
            return (lo, hi)
    if t.op == "bv":
        n = len(t.args)
        while n and type(t.args[n - 1]) is int and t.args[n - 1] == 0:
            n -= 1
        return (0, (1 << n) - 1)
    return (0, (1 << t.w) - 1)


_d58 = {}


def digits58(n):
    """most base58 digits n bytes can need"""
    r = _d58.get(n)
    if r is None:
        x, r = 256 ** n - 1, 0
        while x:
            x //= 58
            r += 1
        _d58[n] = r
    return r


def mk_in(t, ivs):
    """formula: term t in interval set"""
    nat = natural(t)
    ivs = iv_and(ivs, (nat,))
    if not ivs:
        return FALSE
    if ivs == (nat,):
        return TRUE
    if t.op == "lin" and len(t.args[0]) == 1:
        (x, k), = t.args[0]
        c, w = t.args[1], t.w
        M = 1 << w
        nx = natural(x)
        out = []
        if k == 1:
            for lo, hi in ivs:
                l, h = lo - c, hi - c
                for s in (-M, 0, M):
                    out.append((l + s, h + s))
        elif k == M - 1:
            for lo, hi in ivs:
                l, h = c - hi, c - lo
                for s in (-M, 0, M):
                    out.append((l + s, h + s))
        elif nx[1] * k + c < M:
            for lo, hi in ivs:
                out.append((-((c - lo) // k), (hi - c) // k))
        if out or k in (1, M - 1):
            return mk_in(x, iv_and(iv_norm(out), (nx,)))
    if t.op == "bv":
        return in_val(t, ivs, t.w)
    w = t.w
    top = 1 << (w - 1)
    if nat[1] == (1 << w) - 1:
        if ivs == ((top, (1 << w) - 1),):
            return T("b", t, w - 1)
        if ivs == ((0, top - 1),):
            return Not(T("b", t, w - 1))
        if w > 1 and len(ivs) > 1 or iv_size(ivs) > (1 << w) // 2:
            n = iv_and(iv_not(ivs, w), (nat,))
            if len(n) < len(ivs) or (len(n) == len(ivs) and iv_size(n) < iv_size(ivs)):
                return Not(T("in", t, n))
    return T("in", t, ivs)


def in_val(v, ivs, w):
    """formula: integer value v in interval set"""
    if type(v) is int:
        return TRUE if any(l <= v <= h for l, h in ivs) else FALSE
    if v.op != "bv":
        v = tv(v)
    r = recover(v)
    if r:
        kind, t, k = r
        if kind == "z":
            return mk_in(t, iv_norm([(-(-l >> k), h >> k) for l, h in ivs]))
        return mk_in(t, iv_norm([(l << k, (h << k) + (1 << k) - 1) for l, h in ivs]))
    if len(ivs) == 1 and ivs[0][0] == ivs[0][1]:
        c = ivs[0][0]
        bs = bits(v, w)
        if c >> len(bs):
            return FALSE
        return Eqs([(b, (c >> i) & 1) for i, b in enumerate(bs)])
    fs = []
    for lo, hi in ivs:
        fs.append(And(Not(_ult(v, lo, w)), _ult(v, hi + 1, w)))
    return Or(*fs)


def _ult(v, c, w):
    if c <= 0:
        return FALSE
    if c >= 1 << w:
        return TRUE
    bs = bits(v, w)
    f = FALSE       # from low to high: f = value of v[i:] < c[i:]
    for i in range(w):
        b = ff(bs[i])
        if (c >> i) & 1:
            f = Or(Not(b), f)
        else:
            f = And(Not(b), f)
    return f


def eq(a, b, w):
    if type(a) is int and type(b) is int:
        return TRUE if a == b else FALSE
    if a is b:
        return TRUE
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        return in_val(a, ((b, b),), w)
    da, ca = lin_of(a, w)
    db, cb = lin_of(b, w)
    if da == db:
        return TRUE if (ca - cb) & ((1 << w) - 1) == 0 else FALSE
    for t, k in db.items():
        da[t] = da.get(t, 0) - k
    d = {t: k for t, k in da.items() if k & ((1 << w) - 1)}
    if len(d) == 1:
        (t, k), = d.items()
        if k == 1 or k == -1:
            c = (cb - ca) * k & ((1 << w) - 1)
            return in_val(tv(t, w), ((c, c),), w)
    return Eqs(zip(bits(a, w), bits(b, w)))


def ult(a, b, w, g=None):
    M = (1 << w) - 1
    if type(a) is int and type(b) is int:
        return TRUE if a < b else FALSE
    if type(b) is int:
        return in_val(a, ((0, b - 1),), w) if b else FALSE
    if type(a) is int:
        return in_val(b, ((a + 1, M),), w) if a < M else FALSE
    if a is b:
        return FALSE
    if g is not None:
        ra, rb = g.range(a, w), g.range(b, w)
        if ra[1] < rb[0]:
            return TRUE
        if ra[0] >= rb[1]:
            return FALSE
    # common non-wrapping difference
    da, ca = lin_of(a, w)
    db, cb = lin_of(b, w)
    if da == db and all(k < 1 << 32 for k in da.values()):
        na = sum(natural(t)[1] * k for t, k in da.items())
        if na + max(ca, cb) <= M:
            return TRUE if ca < cb else FALSE
        if g is not None and len(da) == 1:
            (t, k), = da.items()
            x = mk_lin(da, 0, w)
            hi = g.range(x, w)
            sa = ca - (1 << w) if ca > M // 2 else ca
            sb = cb - (1 << w) if cb > M // 2 else cb
            if hi[0] + min(sa, sb) >= 0 and hi[1] + max(sa, sb) <= M:
                return TRUE if sa < sb else FALSE
    d = dict(db)
    for t, k in da.items():
        d[t] = d.get(t, 0) - k
    d = {t: k for t, k in d.items() if k}
    # b - a = t + c with everything far from wrapping
    if len(d) == 1:
        (t, k), = d.items()
        allt = list(da.items()) + list(db.items())
        if all(x[1] < 1 << 20 and natural(x[0])[1] <= MAXLEN for x in allt) and abs(k) < 1 << 20:
            sa = ca - (1 << w) if ca > M // 2 else ca
            sb = cb - (1 << w) if cb > M // 2 else cb
            c = sb - sa
            n = natural(t)
            # a < b  <=>  k*t + c > 0
            if k > 0:
                lo = (-c) // k + 1
                return in_val(tv(t, w), ((max(lo, 0), max(n[1], 0)),), w) if lo <= n[1] else FALSE
            hi = (c - 1) // (-k)
            return in_val(tv(t, w), ((0, hi),), w) if hi >= 0 else FALSE
    if a.id > b.id:
        return And(Not(P("lt", b, a)), Not(eq(a, b, w)))
    return P("lt", a, b)


# --------------------------------------------------------------------------------------- guards
SOFT = {"lt", "ovf", "slt", "utf8ok", "opaque", "seqeq", "seqlt", "contains", "starts", "ends", "bound", "charin", "ascii", "charcls"}
# operations on values that are carried along without being related to anything else
OPAQUE = {"divide", "shift", "mul", "trim", "replace", "lossy", "trunc"}
_OPQ = {}


def opaque(x):
    """names of the opaque operations a value is made with"""
    if type(x) is Term:
        r = _OPQ.get(x)
        if r is None:
            r = frozenset([x.op]) if x.op in OPAQUE else frozenset()
            for a in x.args:
                if type(a) is Term or isinstance(a, tuple):
                    r |= opaque(a)
            _OPQ[x] = r
        return r
    r = frozenset()
    for a in x:
        if type(a) is Term or isinstance(a, tuple):
            r |= opaque(a)
    return r


def soft_atom(a):
    """names of what is uncertain about an atomic condition"""
    if a.op == "p" and a.args[0] in SOFT:
        return {a.args[0]} | opaque(a)
    return opaque(a)


WITNESS = {}


class Guard:
    __slots__ = ("iv", "lit")

    def __init__(self, iv=None, lit=None):
        self.iv = iv or {}
        self.lit = lit or {}

    def copy(self):
        return Guard(dict(self.iv), dict(self.lit))

    def key(self):
        return frozenset(self.iv.items()), frozenset(self.lit.items())

    def conj(self):
        out = []
        for t, i in self.iv.items():
            out.append(T("in", t, i))
        for a, v in self.lit.items():
            out.append(a if v else Not(a))
        return out

    def show(self):
        return " & ".join(show(f) for f in self.conj()) or "always"

    def soft(self):
        """names of the atoms of the guard whose joint satisfiability is not established"""
        r = set()
        for a in self.lit:
            r |= soft_atom(a)
        for t in self.iv:
            r |= opaque(t)
        if r:
            k = self.key()
            if k not in WITNESS:
                import sat
                WITNESS[k] = sat.witness(self)
            if WITNESS[k]:
                return set()
        return r

    # ---- ranges
    def term_ivs(self, t):
        r = (natural(t),)
        if t in self.iv:
            r = iv_and(r, self.iv[t])
        if t.op == "bv":
            rr = recover(t)
            if rr:
                ki, x, k = rr
                b = self.term_ivs(x)
                return iv_norm([((l << k), (h << k)) if ki == "z" else (l >> k, h >> k) for l, h in b])
            return r
        if t.op == "lin":
            M = 1 << t.w
            lo = hi = t.args[1] if t.args[1] < M // 2 else t.args[1] - M
            for x, k in t.args[0]:
                k = k if k < M // 2 else k - M
                s = self.term_ivs(x)
                if not s:
                    return ()
                l, h = s[0][0], s[-1][1]
                lo += min(l * k, h * k)
                hi += max(l * k, h * k)
            if 0 <= lo and hi < M:
                r = iv_and(r, ((lo, hi),))
            return r
        if t.op == "len" and self.lit.get(P("b58chars", t.args[0])) is True:
            lo = self.range(T("b58tot", t.args[0], w=64))[0]
            r = iv_and(r, ((lo, MAXLEN),))
        if self.lit and t.op not in ("len", "cnt"):
            i = t.w - 1
            lo, hi = 0, (1 << t.w) - 1
            while i >= 0:
                v = self.lit.get(T("b", t, i))
                if v is None:
                    if not r or r[0][0] >> i != r[-1][1] >> i:
                        break
                    v = (r[0][0] >> i) & 1
                if v:
                    lo |= 1 << i
                else:
                    hi &= ~(1 << i)
                i -= 1
            if i < t.w - 1:
                r = iv_and(r, ((lo, hi),))
            if t in self.iv:
                # drop intervals on which a known bit has the other value throughout
                for j in range(i, -1, -1):
                    v = self.lit.get(T("b", t, j))
                    if v is not None:
                        r = tuple((l, h) for l, h in r if not (l >> j == h >> j and bool((l >> j) & 1) != v))
        return r

    def range(self, v, w=None):
        if type(v) is int:
            return (v, v)
        r = self.term_ivs(v)
        if not r:
            return (0, 0)
        return (r[0][0], r[-1][1])

    def const(self, v):
        """the constant a value is known to be, or None"""
        if type(v) is int:
            return v
        lo, hi = self.range(v)
        if lo == hi:
            return lo
        if v.op == "bv":
            n = 0
            for i, b in enumerate(v.args):
                e = self.eval(ff(b))
                if e is None:
                    return None
                n |= int(e) << i
            return n
        return None

    # ---- evaluation
    def eval(self, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        o = f.op
        if o == "not":
            r = self.eval(f.args[0])
            return None if r is None else not r
        if o == "and":
            unk = False
            for x in f.args:
                r = self.eval(x)
                if r is False:
                    return False
                if r is None:
                    unk = True
            return None if unk else True
        if o == "or":
            unk = False
            for x in f.args:
                r = self.eval(x)
                if r is True:
                    return True
                if r is None:
                    unk = True
            return None if unk else False
        if o == "b":
            v = self.lit.get(f)
            if v is not None:
                return v
            t, i = f.args
            if t.op == "bv":
                return self.eval(ff(t.args[i]))
            if t in self.iv or t.op in ("len", "lin", "b58tot"):
                s = self.term_ivs(t)
                vals = {(l >> i) & 1 if (l >> i) == (h >> i) else 2 for l, h in s}
                if vals == {0}:
                    return False
                if vals == {1}:
                    return True
            return None
        if o == "in":
            s = self.term_ivs(f.args[0])
            x = iv_and(s, f.args[1])
            if not x:
                return False
            if x == s:
                return True
            return None
        if o == "eqs":
            return self._eqs(f)[0]
        v = self.lit.get(f)
        if v is not None:
            return v
        if o == "p":
            return self._pred(f)
        return None

    def _eqs(self, f):
        rest = []
        for a, b in f.args:
            x, y = self.eval(a), self.eval(b)
            if x is not None and y is not None:
                if x != y:
                    return False, ()
                continue
            one = T("eqs", (a, b))
            v = self.lit.get(one)
            if v is True:
                continue
            if v is False:
                return False, ()
            rest.append((a, b))
        if not rest:
            return True, ()
        rs = set(rest)
        for k, v in self.lit.items():
            if v is False and k.op == "eqs" and len(k.args) > 1:
                if all(p in rs or self._pair(p) for p in k.args):
                    return False, ()
        return None, rest

    def _pair(self, p):
        if self.lit.get(T("eqs", p)) is True:
            return True
        x, y = self.eval(p[0]), self.eval(p[1])
        return x is not None and x == y

    def text(self, x):
        """what is known about a text: (the text or None, [(relation, text, holds)])"""
        facts = []
        for k, v in self.lit.items():
            if k.op == "p":
                a = k.args
                if a[0] == "streq" and a[1] is x:
                    if v:
                        return a[2], facts
                    facts.append(("streq", a[2], v))
                elif a[0] in ("starts", "ends", "contains") and a[2] is x:
                    facts.append((a[0], a[1], v))
        return None, facts

    def related(self, n, x, c):
        """streq / starts / ends / contains of text x and constant c, from what is known about x"""
        is_, facts = self.text(x)
        if is_ is not None:
            return TEXT_REL[n](is_, c)
        for r, k, v in facts:
            if v:
                if n == "streq":
                    if not TEXT_REL[r](c, k):
                        return False
                elif n == "contains" or n == r:
                    if c in k if n == "contains" else TEXT_REL[n](k, c):
                        return True
                    if n == r and n != "contains" and not TEXT_REL[n](c, k):
                        return False
            elif r != "streq":
                # x lacks k, so it lacks what would give it k
                if TEXT_REL[r](c, k) and (n == "streq" or n == r or r == "contains"):
                    return False
        lo, hi = self.range(text_len(x))
        m = len(c.encode())
        if hi < m or n == "streq" and lo > m:
            return False
        return None

    def text_facts(self, x):
        """lengths and equalities that follow from what is known about text x -> guards"""
        is_, facts = self.text(x)
        ln = text_len(x)
        if is_ is not None:
            for r, k, v in facts:
                if TEXT_REL[r](is_, k) != v:
                    return []
            m = len(is_.encode())
            return self.assume(in_val(ln, ((m, m),), 64))
        gs = [self]
        m = max([len(k.encode()) for r, k, v in facts if v], default=0)
        if m and self.range(ln)[0] < m:
            gs = self.assume(in_val(ln, ((m, MAXLEN),), 64))
        out = []
        for g in gs:
            lo, hi = g.range(ln)
            k = next((k for r, k, v in facts if v and len(k.encode()) == lo), None) if lo == hi else None
            out += [g] if k is None else g.assume(P("streq", x, k))
        return out

    def _pred(self, f):
        n = f.args[0]
        if n in TEXT_REL:
            x, c = (f.args[1], f.args[2]) if n == "streq" else (f.args[2], f.args[1])
            return self.related(n, x, c) if isinstance(c, str) and type(x) is Term else None
        if n == "parse_ok":
            is_ = self.text(f.args[2])[0] if type(f.args[2]) is Term else None
            return None if is_ is None else int_text(f.args[1], is_)
        if n == "inlist" and type(f.args[2]) is Term:
            import vals
            x, tab = f.args[2], vals.INDEX[f.args[1]]
            is_, facts = self.text(x)
            if is_ is not None:
                return is_ in tab
            if any(v and r in ("starts", "ends", "contains") and not any(TEXT_REL[r](w, k) for w in tab) for r, k, v in facts):
                return False
            for k, v in self.lit.items():
                if v is True and k.op == "p" and k.args[0] == "inlist" and k.args[2] is x and k.args[1] != f.args[1]:
                    if tab.keys().isdisjoint(vals.INDEX[k.args[1]]):
                        return False
            return None
        if n == "bound":
            _, s, k = f.args
            if self.lit.get(P("b58chars", s)) is True and type(k) is int:
                if self.range(T("b58tot", s, w=64))[0] >= k:
                    return True
            return None
        if n == "utf8ok":
            els = f.args[1]
            if all(not isT(e, "sp") and self.range(e)[1] < 128 for e in els):
                return True
            return None
        if n == "lt":
            ra, rb = self.range(f.args[1]), self.range(f.args[2])
            if ra[1] < rb[0]:
                return True
            if ra[0] >= rb[1]:
                return False
            if self.eval(eq(f.args[1], f.args[2], f.args[1].w or f.args[2].w or 64)) is True:
                return False
            return None
        return None

    # ---- refinement
    def assume(self, f, val=True):
        """guards (disjoint) covering self & (f == val)"""
        e = self.eval(f)
        if e is not None:
            return [self] if e == val else []
        o = f.op
        if o == "not":
            return self.assume(f.args[0], not val)
        if o in ("and", "or"):
            if (o == "and") == val:
                gs = [self]
                for x in f.args:
                    gs = [h for g in gs for h in g.assume(x, val)]
                return gs
            out, cur = [], [self]
            for x in f.args:
                out += [h for g in cur for h in g.assume(x, val)]
                cur = [h for g in cur for h in g.assume(x, not val)]
            return out
        g = self.copy()
        if o == "b":
            t, i = f.args
            if t.op == "bv":
                return self.assume(ff(t.args[i]), val)
            g.lit[f] = val
            if t in g.iv and not g.term_ivs(t):
                return []
            return [g] if g._check(f) else []
        if o == "in":
            t = f.args[0]
            s = self.term_ivs(t)
            r = iv_and(s, f.args[1] if val else iv_not(f.args[1], t.w))
            if not r:
                return []
            g.iv[t] = r
            if g.lit and not g.term_ivs(t):
                return []
            if not g._check(f):
                return []
            if t.op == "len" and type(t.args[0]) is Term and g.text(t.args[0])[1]:
                return g.text_facts(t.args[0])
            return [g]
        if o == "eqs":
            _, rest = self._eqs(f)
            if val:
                gs = [g]
                for a, b in rest:
                    nxt = []
                    for h in gs:
                        x, y = h.eval(a), h.eval(b)
                        if x is not None:
                            nxt += h.assume(b, x)
                        elif y is not None:
                            nxt += h.assume(a, y)
                        else:
                            h = h.copy()
                            h.lit[T("eqs", (a, b))] = True
                            nxt.append(h)
                    gs = nxt
                return [h for h in gs if h._check(f)]
            if len(rest) == 1:
                a, b = rest[0]
                x, y = self.eval(a), self.eval(b)
                if x is not None:
                    return self.assume(b, not x)
                if y is not None:
                    return self.assume(a, not y)
            g.lit[T("eqs", *rest)] = False
            return [g]
        g.lit[f] = val
        if o == "p":
            n = f.args[0]
            if n == "lt" and val:
                return g.assume(eq(f.args[1], f.args[2], f.args[1].w or f.args[2].w or 64), False)
            if n in TEXT_REL:
                x, c = (f.args[1], f.args[2]) if n == "streq" else (f.args[2], f.args[1])
                if isinstance(c, str) and type(x) is Term and (val or n != "streq"):
                    return g.text_facts(x)
        return [g]

    def feasible(self):
        """every bounded term has a value with the known bits in the known intervals"""
        ts = set(self.iv)
        for f in self.lit:
            if f.op == "b":
                ts.add(f.args[0])
        for t in ts:
            mask = val = 0
            for i in range(t.w):
                v = self.eval(ff(t.args[i])) if t.op == "bv" else self.lit.get(T("b", t, i))
                if v is not None:
                    mask |= 1 << i
                    val |= int(v) << i
            if not any(fit(l, h, mask, val, t.w) for l, h in self.term_ivs(t)):
                return False
        return all(self._check(f) for f in list(self.lit)[:1])

    def _check(self, f):
        """known disequalities still possible"""
        for k, v in self.lit.items():
            if v is False and k.op == "eqs":
                if all(self._pair(p) for p in k.args):
                    return False
        return True


def text_len(x):
    if x.op == "sub":
        return sub(text_len(x.args[0]), x.args[1] + x.args[2], 64)
    return tv(T("len", x, w=64))


TEXT_REL = {"streq": lambda x, k: x == k, "starts": lambda x, k: x.startswith(k), "ends": lambda x, k: x.endswith(k),
            "contains": lambda x, k: k in x}


def int_text(ty, s):
    """Rust reads s as an integer of the named type; None when the type is not known here"""
    m = re.match(r"([ui])(8|16|32|64|128|size)$", ty)
    if not m:
        return None
    if not re.match(r"[+]?[0-9]+\Z" if m.group(1) == "u" else r"[+-]?[0-9]+\Z", s, re.A):
        return False
    n, w = int(s), 64 if m.group(2) == "size" else int(m.group(2))
    return 0 <= n < 1 << w if m.group(1) == "u" else -(1 << w - 1) <= n < 1 << w - 1


def fit(l, h, mask, val, w):
    """some x in l..h has x & mask == val"""
    x = l
    for _ in range(2 * w + 2):
        if x > h:
            return False
        d = (x ^ val) & mask
        if not d:
            return True
        k = d.bit_length() - 1
        if (val >> k) & 1:
            # raise bit k, clear the free bits below
            x = ((x >> k) | 1) << k
            x |= val & ((1 << k) - 1)
        else:
            # bit k must be 0: carry into the lowest free zero bit above k
            j = k + 1
            while j < w and ((mask >> j) & 1 or (x >> j) & 1):
                j += 1
            if j >= w:
                return False
            x = ((x >> j) | 1) << j
            x |= val & ((1 << j) - 1)
    return True


def merge(a, b):
    """a guard equal to a|b if it is representable, else None"""
    if a.iv == b.iv:
        la, lb = a.lit, b.lit
        if len(la) > len(lb):
            la, lb = lb, la
        dif = [k for k in la if lb.get(k) != la[k]]
        if not dif:
            return Guard(a.iv, la)
        if len(dif) == 1 and len(la) == len(lb) and dif[0] in lb:
            d = dict(la)
            del d[dif[0]]
            return Guard(a.iv, d)
        return None
    if a.lit == b.lit:
        ks = set(a.iv) | set(b.iv)
        dif = [k for k in ks if a.iv.get(k) != b.iv.get(k)]
        if len(dif) == 1:
            k = dif[0]
            d = dict(a.iv)
            d.pop(k, None)
            if k in a.iv and k in b.iv:
                u = iv_or(a.iv[k], b.iv[k])
                if u != (natural(k),):
                    d[k] = u
            return Guard(d, a.lit)
    # implication
    for x, y in ((a, b), (b, a)):
        if all(y.lit.get(k) == v for k, v in x.lit.items()) and all(
                k in y.iv and iv_and(y.iv[k], v) == y.iv[k] for k, v in x.iv.items()):
            return x
    return None


def leaves(x, acc=None):
    """names of the 'var' and 'rand' terms a value depends on"""
    if type(x) is Term:
        if x._lv is None:
            if x.op in ("var", "rand"):
                x._lv = frozenset([x])
            else:
                s = set()
                for a in x.args:
                    s |= leaves(a)
                x._lv = frozenset(s)
        return x._lv
    if isinstance(x, (tuple, list)):
        s = set()
        for a in x:
            s |= leaves(a)
        return frozenset(s)
    return frozenset()
