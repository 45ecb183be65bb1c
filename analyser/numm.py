"""Abstract meaning of integer methods, text-to-number and number-to-bytes conversions."""
import re

from core import *
from interp import *
from vals import *
from iters import last_seg

INTRE = re.compile(r"\b([ui])(8|16|32|64|128|size)\b")


def int_of(s):
    m = INTRE.search(s)
    if not m:
        return None
    return (64 if m.group(2) == "size" else int(m.group(2))), m.group(1) == "i"


SIGNED = re.compile(r"\bi(8|16|32|64|128|size)\b")


def biased(x, w):
    """the unsigned number that is ordered as the signed number x is"""
    H = 1 << (w - 1)
    return (x ^ H) & ((1 << w) - 1) if type(x) is int else add(x, H, w)


class Num:
    def num_type(self, c):
        """(width, signed) of the integer type whose method this is"""
        m = re.search(r"<impl (?:core::[\w:]+ for )?([ui](?:8|16|32|64|128|size))>", c.name) or re.match(r"(?:core::num::)?([ui](?:8|16|32|64|128|size))::", c.name)
        if m:
            return int_of(m.group(1))
        for t in (c.argtys or [])[:1]:
            ty = c.I.p.types[t]
            while ty["k"] in ("ref", "ptr"):
                ty = c.I.p.types[ty["t"]]
            if ty["k"] == "int":
                return ty["w"], ty["s"]
        return int_of(c.name)

    def s_num(self, c, seg):
        I, st = c.I, c.st
        wt = self.num_type(c)
        if wt is None:
            return NotImplemented
        w, sg = wt
        M = (1 << w) - 1
        a = [I.full(st, x) for x in c.args]
        if seg in ("from_be_bytes", "from_le_bytes", "from_ne_bytes"):
            if istop(a[0]):
                return top("bytes: " + str(a[0][1]))
            e = expand(st.g, a[0][1])
            if not sized(e) or len(e) != w // 8:
                raise Undecided("integer from bytes of unknown length")
            t = [x for x in e if istop(x)]
            if t:
                return t[0]
            if seg == "from_be_bytes":
                e = e[::-1]
            if all(type(x) is int for x in e):
                return int.from_bytes(bytes(e), "little")
            return mkbv(tuple(b for x in e for b in bits(x, 8)))
        if seg in ("to_be_bytes", "to_le_bytes", "to_ne_bytes"):
            if istop(a[0]):
                return arr((top(a[0][1]),) * (w // 8))
            e = []
            if type(a[0]) is int:
                e = list(a[0].to_bytes(w // 8, "little"))
            else:
                bs = bits(a[0], w)
                e = [mkbv(tuple(bs[i:i + 8])) for i in range(0, w, 8)]
            return arr(e[::-1] if seg == "to_be_bytes" else e)
        if seg in ("from_str", "from_str_radix", "from_ascii"):
            return self.parse_int(c, w, sg, a[1] if seg == "from_str_radix" else 10)
        t = [x for x in a if istop(x)]
        if t:
            if seg.startswith(("checked_", "try_")):
                raise Undecided(seg + ": " + str(t[0][1]))
            return t[0]
        m = re.match(r"(checked|wrapping|saturating|overflowing|unchecked|strict)_(add|sub|mul)(_unsigned|_signed)?$", seg)
        if m and not m.group(3):
            if m.group(3):
                raise Undecided(seg)
            mode, op = m.group(1), {"add": "Add", "sub": "Sub", "mul": "Mul"}[m.group(2)]
            r = {"Add": add, "Sub": sub, "Mul": mul}[op](a[0], a[1], w)
            if mode in ("wrapping", "unchecked"):
                return r
            f = I.overflow(st.g, op, a[0], a[1], w, sg)
            if mode == "overflowing":
                return ("tup", (r, f))
            y, n = I.split(st, f)
            if mode == "checked":
                return [(s, NONE) for s in y] + [(s, some(r)) for s in n]
            if mode == "strict":
                for s in y:
                    I.panic(s, "arithmetic overflow")
                return [(s, r) for s in n]
            if sg:
                raise Undecided("signed saturation")
            sat = 0 if op == "Sub" else M
            return [(s, sat) for s in y] + [(s, r) for s in n]
        m = re.match(r"(checked|wrapping|overflowing)_(div|rem|div_euclid|rem_euclid)$", seg)
        if m and not sg:
            y, n = I.split(st, eq(a[1], 0, w))
            out = []
            if m.group(1) == "checked":
                out += [(s, NONE) for s in y]
            else:
                for s in y:
                    I.panic(s, "division by zero")
            tid = c.argtys[0] if c.argtys else None
            for s in n:
                r = I.binop(s, "Div" if "div" in m.group(2) else "Rem", a[0], a[1], tid, tid)
                out.append((s, some(r) if m.group(1) == "checked" else r if m.group(1) == "wrapping" else ("tup", (r, FALSE))))
            return out
        if seg in ("div_euclid", "rem_euclid", "div_ceil", "next_multiple_of", "is_multiple_of") and not sg:
            k = st.g.const(a[1])
            if k is None:
                raise Undecided(seg)
            if k == 0:
                if seg == "is_multiple_of":
                    return eq(a[0], 0, w)
                I.panic(st, "division by zero")
                return []
            tid = c.argtys[0] if c.argtys else None
            if seg == "div_euclid":
                return I.binop(st, "Div", a[0], k, tid, tid)
            if seg == "rem_euclid":
                return I.binop(st, "Rem", a[0], k, tid, tid)
            if seg == "is_multiple_of":
                return eq(I.binop(st, "Rem", a[0], k, tid, tid), 0, w)
            if seg == "div_ceil":
                if st.g.range(a[0])[1] + k > M:
                    raise Undecided(seg)
                return I.binop(st, "Div", add(a[0], k - 1, w), k, tid, tid)
            return mul(I.binop(st, "Div", add(a[0], k - 1, w), k, tid, tid), k, w)
        m = re.match(r"(checked|wrapping|overflowing|unbounded)_(shl|shr)$", seg)
        if m:
            op = shl if m.group(2) == "shl" else (lambda x, n, w_: shr(x, n, w_, sg))
            out = []
            for s, k in self.values_of(I, st, a[1], 130):
                if m.group(1) == "checked":
                    out.append((s, some(op(a[0], k, w)) if k < w else NONE))
                elif m.group(1) == "wrapping":
                    out.append((s, op(a[0], k % w, w)))
                elif m.group(1) == "unbounded":
                    out.append((s, op(a[0], k, w) if k < w else 0))
                else:
                    out.append((s, ("tup", (op(a[0], k % w, w), FALSE if k < w else TRUE))))
            return out
        if seg in ("pow", "checked_pow", "wrapping_pow", "saturating_pow"):
            if sg:
                raise Undecided("power of a signed number")
            x, k = st.g.const(a[0]), st.g.const(a[1])
            if x is None or k is None:
                if x == 2 and k is None:
                    out = []
                    for s, kk in self.values_of(I, st, a[1], 130):
                        out += self.powc(I, s, 2, kk, seg, M)
                    return out
                if k is not None and k <= 8:
                    r = 1
                    if seg != "wrapping_pow":
                        if st.g.range(a[0])[1] ** k > M:
                            raise Undecided("power may overflow")
                    for _ in range(k):
                        r = mul(r, a[0], w)
                    return some(r) if seg == "checked_pow" else r
                raise Undecided("power")
            return self.powc(I, st, x, k, seg, M)
        if seg in ("leading_zeros", "trailing_zeros", "count_ones", "count_zeros", "ilog2", "leading_ones", "trailing_ones"):
            x = st.g.const(a[0])
            if x is None:
                lo, hi = st.g.range(a[0])
                if hi - lo <= 40:
                    out = []
                    for s, k in self.values_of(I, st, a[0]):
                        out += self.bitcount(I, s, seg, k, w)
                    return out
                return tv(T(seg, a[0], w=32))
            return self.bitcount(I, st, seg, x, w)
        if seg in ("rotate_left", "rotate_right"):
            k = st.g.const(a[1])
            if k is None:
                raise Undecided("rotation")
            k %= w
            return rotl(a[0], k if seg == "rotate_left" else (w - k) % w, w)
        if seg == "swap_bytes" or seg in ("to_be", "from_be"):
            b = bits(a[0], w)
            out = ()
            for i in range(w - 8, -1, -8):
                out += tuple(b[i:i + 8])
            return mkbv(out)
        if seg in ("to_le", "from_le"):
            return a[0]
        if seg == "reverse_bits":
            return mkbv(tuple(bits(a[0], w))[::-1])
        if seg in ("min", "max"):
            z = [biased(x, w) for x in a] if sg else a
            f = ult(z[0], z[1], w, st.g)
            y, n = I.split(st, f)
            lo, hi = (0, 1) if seg == "min" else (1, 0)
            return [(s, a[lo]) for s in y] + [(s, a[hi]) for s in n]
        if seg == "clamp":
            out = []
            if sg:
                raise Undecided("clamp of a signed number")
            for s, f in ((st, None),):
                y, n = I.split(s, ult(a[0], a[1], w, st.g))
                out += [(q, a[1]) for q in y]
                for q in n:
                    y2, n2 = I.split(q, ult(a[2], a[0], w, q.g))
                    out += [(z, a[2]) for z in y2] + [(z, a[0]) for z in n2]
            return out
        if seg == "abs_diff" and not sg:
            y, n = I.split(st, ult(a[0], a[1], w, st.g))
            return [(s, sub(a[1], a[0], w)) for s in y] + [(s, sub(a[0], a[1], w)) for s in n]
        if seg == "is_power_of_two":
            return in_val(a[0], tuple((1 << i, 1 << i) for i in range(w)), w)
        if seg in ("wrapping_neg",):
            return neg(a[0], w) if type(a[0]) is Term else (-a[0]) & M
        if seg == "default":
            return 0
        if seg in ("add", "sub", "mul", "bitand", "bitor", "bitxor", "shl", "shr", "div", "rem"):
            return self.arith(c, seg, a, w, sg)
        if seg.endswith("_assign"):
            r = self.arith(c, seg[:-7], a, w, sg)
            if r is NotImplemented:
                return r
            out = []
            for s, v in r:
                I.write(s, c.args[0], v)
                out.append((s, UNIT))
            return out
        if seg == "not":
            return bvnot(a[0], w) if type(a[0]) is Term else a[0] ^ M
        if seg in ("isqrt", "parse"):
            return NotImplemented
        if seg.startswith(("is_ascii", "to_ascii", "eq_ignore")):
            return self.s_char(c, seg)
        return NotImplemented

    def arith(self, c, seg, a, w, sg):
        I, st = c.I, c.st
        op = {"add": "Add", "sub": "Sub", "mul": "Mul", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr",
              "div": "Div", "rem": "Rem"}.get(seg)
        if op is None:
            return NotImplemented
        tid = self.int_tid(I, w, sg)
        if op in ("Add", "Sub", "Mul") and I.p.ov:
            r = I.binop(st, op + "WithOverflow", a[0], a[1], tid, tid)
            if istop(r):
                return [(st, r)]
            v, f = r[1]
            y, n = I.split(st, f)
            for s in y:
                I.panic(s, "arithmetic overflow")
            return [(s, v) for s in n]
        return [(st, I.binop(st, op, a[0], a[1], tid, tid))]

    def int_tid(self, I, w, sg):
        for t in I.p.types:
            if t["k"] == "int" and t["w"] == w and bool(t["s"]) == bool(sg):
                return t["id"]
        return None

    def powc(self, I, s, x, k, seg, M):
        r = x ** k if k < 4096 else M + 1
        if r > M:
            if seg == "checked_pow":
                return [(s, NONE)]
            if seg == "saturating_pow":
                return [(s, M)]
            if seg == "wrapping_pow" or not I.p.ov:
                return [(s, pow(x, k, M + 1))]
            I.panic(s, "arithmetic overflow")
            return []
        return [(s, some(r) if seg == "checked_pow" else r)]

    def bitcount(self, I, s, seg, x, w):
        b = bin(x)[2:].zfill(w) if x else "0" * w
        if seg == "ilog2":
            if x == 0:
                I.panic(s, "ilog2 of zero")
                return []
            return [(s, x.bit_length() - 1)]
        r = {"leading_zeros": w - x.bit_length(), "count_ones": b.count("1"), "count_zeros": b.count("0"),
             "trailing_zeros": (x & -x).bit_length() - 1 if x else w, "leading_ones": len(b) - len(b.lstrip("1")),
             "trailing_ones": len(b) - len(b.rstrip("1"))}[seg]
        return [(s, r)]

    # ------------------------------------------------------------------ text to number
    def parse_int(self, c, w, sg, radix=10):
        I, st = c.I, c.st
        bad = lambda s: (s, err(("adt", "core::num::error::ParseIntError", 0, (("adt", "core::num::error::IntErrorKind", 1, ()),))))
        v = self.sval(I, st, c.args[0])
        M = (1 << w) - 1
        if radix != 10:
            radix = st.g.const(radix)
        x = skey(v[1])
        if isinstance(x, str):
            n = self.rust_int(x, w, sg, radix)
            return [(st, ok(n & M))] if n is not None else [bad(st)]
        if x.op == "dec" and radix == 10 and not sg:
            a = x.args[0]
            if a.w and a.w <= w:
                return [(st, ok(self.widen(a, w)))]
            y, n = I.split(st, ult(a, M + 1, a.w or 64, st.g))
            return [(s, ok(trunc(a, w))) for s in y] + [bad(s) for s in n]
        tag = "%s%d%s" % ("i" if sg else "u", w, "" if radix == 10 else "r%s" % radix)
        if x.op == "word":
            return [bad(st)]
        if x.op == "cat" and any(isinstance(p, str) and not all(ch in "+-0123456789" for ch in p) for p in x.args) and radix == 10:
            return [bad(st)]
        if x.op == "cat" and isinstance(x.args[0], str) and radix == 10:
            p0 = x.args[0]
            if not sg and p0[0] == "-":
                return [bad(st)]
            if "-" in p0[1:] or "+" in p0[1:]:
                return [bad(st)]
            if len(x.args) == 2 and isT(x.args[1], "dec") and not sg and p0.lstrip("+").strip("0") == "" and p0.count("+") <= 1:
                return self.parse_int(C2(c, string(x.args[1])), w, sg, radix)
        if x.op == "cat" and isinstance(x.args[-1], str) and radix == 10 and any(ch in "+-" for ch in x.args[-1]):
            return [bad(st)]
        y, n = I.split(st, P("parse_ok", tag, x))
        return [(s, ok(tv(T("parse", tag, x, w=w)))) for s in y] + [bad(s) for s in n]

    def rust_int(self, s, w, sg, radix):
        t = s
        negv = False
        if t[:1] == "+" and len(t) > 1:
            t = t[1:]
        elif t[:1] == "-" and sg and len(t) > 1:
            t, negv = t[1:], True
        digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:radix]
        if not t or any(ch.lower() not in digs or not ch.isascii() for ch in t):
            return None
        n = int(t, radix)
        n = -n if negv else n
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        return n if lo <= n <= hi else None


class C2:
    """a call context with its first argument replaced"""

    def __init__(self, c, v):
        for k in ("I", "st", "name", "ti", "targs", "argtys", "destty", "info", "krate", "inst"):
            setattr(self, k, getattr(c, k, None))
        self.args = [v] + list(c.args[1:])
