"""Formatting machinery: format_args!, Formatter methods, Display/Debug/hex of abstract values.

A formatter is ('fmtr', string, spec); spec = (flags, width, precision).
"""
from core import *
from interp import *
from vals import *

PLUS, MINUS, ALT, ZERO, DLOW, DUP, WIDTH, PREC = (1 << 21, 1 << 22, 1 << 23, 1 << 24, 1 << 25, 1 << 26, 1 << 27, 1 << 28)
NOSPEC = (32 | 3 << 29, None, None)


def fill_align(spec):
    f = spec[0]
    return chr(f & 0x1FFFFF), (f >> 29) & 3


class Fmt:
    # ------------------------------------------------------------------ sinks
    def emit(self, I, st, sink, parts):
        """append string parts to a formatter or String behind a mutable reference"""
        v = I.read(st, sink[1], sink[2]) if sink[0] == "&m" else None
        if v is None:
            raise Undecided("formatting into " + str(sink[0]))
        if v[0] == "fmtr":
            I.write(st, sink, ("fmtr", string(*v[1][1], *parts), v[2]))
        elif v[0] == "str":
            I.write(st, sink, string(*v[1], *parts))
        elif v[0] in ("&m",):
            self.emit(I, st, v, parts)
        elif is_arr(v):
            I.write(st, sink, ("arr", v[1] + str_bytes(parts)))
        elif istop(v):
            pass
        else:
            raise Undecided("formatting into " + v[0])

    def spec_of(self, I, st, sink):
        v = I.read(st, sink[1], sink[2])
        n = 0
        while v[0] == "&m" and n < 5:
            sink = v
            v = I.read(st, sink[1], sink[2])
            n += 1
        if v[0] == "fmtr":
            return v[2], sink
        return NOSPEC, sink

    def with_spec(self, I, st, sink, spec, fn):
        """run fn with the formatter's spec replaced"""
        cur, sink = self.spec_of(I, st, sink)
        v = I.read(st, sink[1], sink[2])
        if v[0] != "fmtr":
            # a String used as fmt::Write: wrap
            o = I.newtmp(st, ("fmtr", ("str", ()), spec))
            out = []
            for s, r in fn(st, ("&m", o, ())):
                w = s.mem.pop(o)
                if w[0] == "fmtr":
                    self.emit(I, s, sink, w[1][1])
                out.append((s, r))
            return out
        I.write(st, sink, ("fmtr", v[1], spec))
        out = []
        for s, r in fn(st, sink):
            w = I.read(s, sink[1], sink[2])
            if w[0] == "fmtr":
                I.write(s, sink, ("fmtr", w[1], cur))
            out.append((s, r))
        return out

    # ------------------------------------------------------------------ templates
    def template(self, tpl, args, g):
        """-> list of str | (arg index, spec)"""
        b, i, nxt, out = tpl, 0, 0, []
        while i < len(b) and b[i] != 0:
            c = b[i]
            if c < 0x80:
                out.append(bytes(b[i + 1:i + 1 + c]).decode("utf-8", "surrogateescape"))
                i += 1 + c
            elif c == 0x80:
                n = b[i + 1] | b[i + 2] << 8
                out.append(bytes(b[i + 3:i + 3 + n]).decode("utf-8", "surrogateescape"))
                i += 3 + n
            else:
                i += 1
                flags, wd, pr = NOSPEC[0], None, None
                if c & 1:
                    flags = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24
                    i += 4
                if c & 2:
                    wd = b[i] | b[i + 1] << 8
                    i += 2
                if c & 4:
                    pr = b[i] | b[i + 1] << 8
                    i += 2
                if c & 8:
                    nxt = b[i] | b[i + 1] << 8
                    i += 2
                for bit, which in ((16, "w"), (32, "p")):
                    if c & bit:
                        idx = wd if which == "w" else pr
                        a = args[idx] if idx is not None and idx < len(args) else None
                        n = g.const(a[2]) if a and a[0] == "fmtarg" and type(a[2]) is not tuple else None
                        if n is None:
                            raise Undecided("computed width")
                        if which == "w":
                            wd = n
                        else:
                            pr = n
                if not flags & WIDTH and not c & 2:
                    wd = None
                out.append((nxt, (flags, wd, pr)))
                nxt += 1
        return out

    def format_args(self, I, st, sink, fa):
        """-> [(state, fmt::Result)]"""
        if istop(fa):
            raise Undecided("format arguments: " + str(fa[1]))
        _, tpl, args = fa
        if is_str(tpl):
            self.emit(I, st, sink, tpl[1])
            return [(st, ok(UNIT))]
        cur = [st]
        bad = []
        for it in self.template(tpl, args, st.g):
            nxt = []
            for s in cur:
                if isinstance(it, str):
                    self.emit(I, s, sink, (it,))
                    nxt.append(s)
                    continue
                idx, spec = it
                a = args[idx]
                if istop(a):
                    raise Undecided("format argument: " + str(a[1]))
                for s2, r in self.with_spec(I, s, sink, spec, lambda s3, k: self.fmt_value(I, s3, a[1], a[3], a[2], k)):
                    if istop(r):
                        self.emit(I, s2, sink, (T("top", r[1]),))
                        nxt.append(s2)
                    elif r[2] == 0:
                        nxt.append(s2)
                    else:
                        bad.append((s2, r))
            cur = nxt
        return [(s, ok(UNIT)) for s in cur] + bad

    def format_to_string(self, I, st, fa):
        """-> [(state, str value)]; a failing Display impl is a panic"""
        o = I.newtmp(st, ("fmtr", ("str", ()), NOSPEC))
        out = []
        for s, r in self.format_args(I, st, ("&m", o, ()), fa):
            w = s.mem.pop(o)
            if r[0] == "adt" and r[2] == 1:
                I.panic(s, "a formatting trait implementation returned an error")
                continue
            out.append((s, w[1] if w[0] == "fmtr" else top("formatter")))
        return out

    def render(self, I, st, trait, ty, v, spec=NOSPEC):
        """text of a value -> [(state, str or None on error)]"""
        o = I.newtmp(st, ("fmtr", ("str", ()), spec))
        out = []
        for s, r in self.fmt_value(I, st, trait, ty, v, ("&m", o, ())):
            w = s.mem.pop(o)
            if r[0] == "adt" and r[2] == 1:
                out.append((s, None))
            else:
                out.append((s, w[1] if w[0] == "fmtr" else top("formatter")))
        return out

    # ------------------------------------------------------------------ values
    def pad_str(self, parts, spec):
        wd, pr = spec[1], spec[2]
        if pr is not None:
            if all(isinstance(p, str) for p in parts):
                parts = ("".join(parts)[:pr],)
            else:
                parts = (T("trunc", parts, pr),)
        if wd is None:
            return parts
        fill, al = fill_align(spec)
        if all(isinstance(p, str) for p in parts):
            s = "".join(parts)
            n = wd - len(s)
            if n <= 0:
                return (s,)
            if al == 1:
                return (fill * n + s,)
            if al == 2:
                return (fill * (n // 2) + s + fill * (n - n // 2),)
            return (s + fill * n,)
        lens = len_els(str_bytes(parts))
        if type(lens) is int and lens >= wd and not any(isinstance(p, str) and not p.isascii() for p in parts):
            return parts
        return (T("pad", parts, spec),)

    def pad_int(self, digits, prefix, spec, neg=False):
        """digits: parts; numeric padding (right aligned by default, sign-aware zeros)"""
        sign = "-" if neg else ("+" if spec[0] & PLUS else "")
        pre = sign + prefix
        wd = spec[1]
        if wd is None:
            return (pre,) + tuple(digits)
        n = 0
        for p in digits:
            if isinstance(p, str):
                n += len(p)
            elif p.op == "nib":
                n += 1
            else:
                l = natural(T("len", p, w=64))
                if l[0] + len(pre) >= wd and wd <= 1:
                    n = None
                    break
                return (T("pad", (pre,) + tuple(digits), spec),)
        if n is None:
            return (pre,) + tuple(digits)
        k = wd - n - len(pre)
        if k <= 0:
            return (pre,) + tuple(digits)
        if spec[0] & ZERO:
            return (pre + "0" * k,) + tuple(digits)
        fill, al = fill_align(spec)
        if al == 0:
            return (pre,) + tuple(digits) + (fill * k,)
        if al == 2:
            return (fill * (k // 2) + pre,) + tuple(digits) + (fill * (k - k // 2),)
        return (fill * k + pre,) + tuple(digits)

    def int_parts(self, I, st, v, w, signed, base, upper, spec):
        pre = ""
        if spec[0] & ALT:
            pre = {16: "0x", 8: "0o", 2: "0b"}.get(base, "")
        c = st.g.const(v)
        if c is not None:
            neg = False
            if signed and base == 10 and c >> (w - 1):
                c, neg = (1 << w) - c, True
            d = str(c) if base == 10 else format(c, {16: "X" if upper else "x", 8: "o", 2: "b"}[base])
            return self.pad_int((d,), pre, spec, neg)
        if base == 10:
            if signed:
                return (T("sdec", v, spec, w),)
            return self.pad_int((T("dec", v),), "", spec)
        if base == 16:
            n = w // 4
            bs = bits(v, w)
            nibs = [mkbv(bs[4 * i:4 * i + 4]) for i in range(n)][::-1]
            wd = (spec[1] or 0) - len(pre)
            if wd >= n and spec[0] & ZERO:
                return (pre + "0" * (wd - n),) + tuple(self.nibpart(x, upper) for x in nibs)
            # number of digits must be fixed
            k = 0
            while k < n - 1 and st.g.const(nibs[k]) == 0:
                k += 1
            if k == n - 1 or st.g.eval(eq(nibs[k], 0, 4)) is False:
                return self.pad_int(tuple(self.nibpart(x, upper) for x in nibs[k:]), pre, spec)
            if spec[0] & ZERO and wd >= n - k:
                return (pre + "0" * (wd - (n - k)),) + tuple(self.nibpart(x, upper) for x in nibs[k:])
            return (pre, T("hexint", v, upper, spec)) if pre else (T("hexint", v, upper, spec),)
        return (T("binint", v, base, spec),)

    def nibpart(self, x, upper):
        if type(x) is int:
            return format(x, "X" if upper else "x")
        return T("nib", x, bool(upper))

    def fmt_value(self, I, st, trait, ty, v, sink):
        """format value v (of type ty) through trait into the formatter -> [(state, fmt::Result)]"""
        t = I.p.types[ty] if ty is not None else None
        spec, sink = self.spec_of(I, st, sink)
        n = 0
        while n < 10:
            n += 1
            if isinstance(v, tuple) and v and v[0] in ("&", "&m", "box"):
                if t is not None and t["k"] in ("ref", "ptr"):
                    ty = t["t"]
                    t = I.p.types[ty]
                elif t is not None and t["k"] == "adt" and v[0] == "box" and t["args"]:
                    ty = t["args"][0]
                    t = I.p.types[ty]
                v = I.deref(st, v)
                continue
            if t is not None and t["k"] == "ref":
                ty = t["t"]
                t = I.p.types[ty]
                continue
            break
        if isinstance(v, tuple) and v and v[0] == "dyn":
            return self.fmt_value(I, st, trait, v[1], v[2], sink)
        if istop(v):
            self.emit(I, st, sink, (T("top", v[1]),))
            return [(st, ok(UNIT))]
        # types of the crate (or generic wrappers whose impl is in the dump)
        imp = (t.get("impls") or {}).get(trait) if t is not None else None
        if isinstance(imp, int) and not isinstance(imp, bool) and I.p.insts[imp]["krate"] == I.p.d["crate"] and I.p.insts[imp]["body"]:
            return I.call_inst(imp, [ref(v), sink], st)
        if trait == "Debug":
            return self.debug_value(I, st, ty, t, v, sink, spec)
        if is_str(v):
            if trait == "Display":
                self.emit(I, st, sink, self.pad_str(v[1], spec))
                return [(st, ok(UNIT))]
        if type(v) is int or (type(v) is Term and (v.op == "bv")):
            w, s = I.width(ty) if ty is not None else (w_of(v), False)
            if t is not None and t["k"] == "char":
                c = st.g.const(v)
                self.emit(I, st, sink, self.pad_str((chr(c),) if c is not None else (self.char_part(v),), spec))
                return [(st, ok(UNIT))]
            if t is not None and t["k"] == "bool":
                self.emit(I, st, sink, self.pad_str(("true" if v else "false",), spec))
                return [(st, ok(UNIT))]
            base = {"Display": 10, "LowerHex": 16, "UpperHex": 16, "Octal": 8, "Binary": 2}.get(trait)
            if base:
                self.emit(I, st, sink, self.int_parts(I, st, v, w, s, base, trait == "UpperHex", spec))
                return [(st, ok(UNIT))]
        if type(v) is Term:
            yes, no = I.split(st, v)
            out = []
            for s in yes:
                self.emit(I, s, sink, self.pad_str(("true",), spec))
                out.append((s, ok(UNIT)))
            for s in no:
                self.emit(I, s, sink, self.pad_str(("false",), spec))
                out.append((s, ok(UNIT)))
            return out
        if isinstance(v, tuple) and v[0] == "fmtargs":
            return self.format_args(I, st, sink, v)
        if isinstance(v, tuple) and v[0] == "it" and v[1] == "chars" and trait == "Display":
            # Display of a normalisation iterator writes its characters
            self.emit(I, st, sink, v[2])
            return [(st, ok(UNIT))]
        if t is not None and t["k"] == "adt" and t["n"].endswith("Zeroizing") and t["args"]:
            return self.fmt_value(I, st, trait, t["args"][0], v, sink)
        if isinstance(v, tuple) and v[0] == "adt" and v[1] == "anyhow::Error" and len(v[3]) == 2:
            return self.fmt_value(I, st, trait, v[3][1], v[3][0], sink)
        self.emit(I, st, sink, (T("shown", trait, v, t["str"] if t else ""),))
        return [(st, ok(UNIT))]

    def char_part(self, c):
        n = None
        if isT(c, "bv"):
            n = nib_of(mkbv(c.args[:8]))
        if n is not None:
            return n
        if isT(c, "bv") and all(type(b) is int and b == 0 for b in c.args[7:]):
            return T("bs", (mkbv(c.args[:8]),))
        return T("chr", c)

    # ------------------------------------------------------------------ Debug
    def debug_value(self, I, st, ty, t, v, sink, spec):
        """structural Debug; alternate layout is not distinguished"""
        done = [(st, ok(UNIT))]
        if is_str(v):
            self.emit(I, st, sink, ('"',) + v[1] + ('"',))
            return done
        if type(v) is int or isT(v, "bv"):
            if t is not None and t["k"] == "bool":
                self.emit(I, st, sink, ("true" if v else "false",))
                return done
            if t is not None and t["k"] == "char":
                c = st.g.const(v)
                self.emit(I, st, sink, ("'", chr(c) if c is not None else self.char_part(v), "'"))
                return done
            w, s = I.width(ty) if ty is not None else (w_of(v), False)
            base, up = (16, bool(spec[0] & DUP)) if spec[0] & (DLOW | DUP) else (10, False)
            self.emit(I, st, sink, self.int_parts(I, st, v, w, s, base, up, spec))
            return done
        if type(v) is Term:
            self.emit(I, st, sink, (T("shown", "Debug", v),))
            return done
        if not isinstance(v, tuple) or not v:
            self.emit(I, st, sink, (T("shown", "Debug", v),))
            return done
        if is_arr(v):
            et = self.elem_ty(I, ty, t)
            cur = [st]
            for i, x in enumerate(v[1]):
                nxt = []
                for s in cur:
                    self.emit(I, s, sink, ("[" if i == 0 else ", ",))
                    if isT(x, "sp"):
                        self.emit(I, s, sink, (T("shown", "Debug", x),))
                        nxt.append(s)
                    else:
                        nxt += [s2 for s2, r in self.fmt_value(I, s, "Debug", et, x, sink)]
                cur = nxt
            for s in cur:
                self.emit(I, s, sink, ("]" if v[1] else "[]",))
            return [(s, ok(UNIT)) for s in cur]
        if v[0] == "tup":
            tys = t.get("ts") if t is not None else None
            return self.debug_fields(I, st, "", [(None, x, tys[i] if tys and i < len(tys) else None) for i, x in enumerate(v[1])], sink, ok(UNIT))
        if v[0] == "adt":
            if t is not None and t["k"] == "adt" and t["n"].endswith("Zeroizing") and t["args"]:
                return self.fmt_value(I, st, "Debug", t["args"][0], v, sink)
            if v[1] == OPT:
                if v[2] == 0:
                    self.emit(I, st, sink, ("None",))
                    return done
                return self.debug_fields(I, st, "Some", [(None, v[3][0], t["args"][0] if t is not None and t.get("args") else None)], sink, ok(UNIT))
            if v[1] == RES:
                return self.debug_fields(I, st, "Ok" if v[2] == 0 else "Err",
                                         [(None, v[3][0], t["args"][v[2]] if t is not None and t.get("args") else None)], sink, ok(UNIT))
            if v[1] == "anyhow::Error" and len(v[3]) == 2:
                return self.fmt_value(I, st, "Debug", v[3][1], v[3][0], sink)
        if v[0] == "fmtargs":
            return self.format_args(I, st, sink, v)
        self.emit(I, st, sink, (T("shown", "Debug", v, t["str"] if t else ""),))
        return done

    def elem_ty(self, I, ty, t):
        if t is None:
            return None
        if t["k"] in ("array", "slice"):
            return t["t"]
        if t["k"] == "adt" and t.get("args"):
            return t["args"][0]
        return None

    def debug_fields(self, I, st, name, fields, sink, res):
        cur = [st]
        for s in cur:
            self.emit(I, s, sink, (name,))
        for i, (fn, x, ty) in enumerate(fields):
            nxt = []
            for s in cur:
                if fn is not None:
                    self.emit(I, s, sink, (" { " if i == 0 else ", ", fn, ": "))
                else:
                    self.emit(I, s, sink, ("(" if i == 0 else ", ",))
                nxt += [s2 for s2, r in self.fmt_value(I, s, "Debug", ty, x, sink)]
            cur = nxt
        if fields:
            for s in cur:
                self.emit(I, s, sink, (" }" if fields[0][0] is not None else ")",))
        return [(s, res) for s in cur]
