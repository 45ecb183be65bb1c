"""Dispatch of standard-library calls, traits, iterator methods, formatting and miscellany."""
import re

from core import *
from interp import *
from vals import *
from iters import Iters, last_seg, it_list, is_range
from fmtm import Fmt, NOSPEC, ALT, PLUS
from leafm import Leaf
from seqm import Seq, ordering, ORD
from strm import Str
from numm import Num, biased, SIGNED
from stdi import StdI

CF = "core::ops::control_flow::ControlFlow"


ORDERS = re.compile(r"sort|is_sorted|max_by|min_by|binary_search|partition_point|select_nth|cmp|le$|lt$|ge$|gt$|max|min")
CMPS = ("cmp", "partial_cmp", "lt", "le", "gt", "ge", "max", "min", "clamp")


class Ctx:
    __slots__ = ("I", "st", "inst", "info", "name", "ti", "targs", "krate", "args", "argtys", "destty")

    def __init__(self, I, st, inst, info, name, targs, krate, args, argtys, destty):
        self.I, self.st, self.inst, self.info, self.name, self.targs = I, st, inst, info, name, targs
        self.krate, self.args, self.argtys, self.destty = krate, args, argtys, destty
        self.ti = info["ti"] if info else None

    def alt(self, **kw):
        c = Ctx(self.I, self.st, self.inst, self.info, self.name, self.targs, self.krate, self.args, self.argtys, self.destty)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class Models(StdI, Iters, Fmt, Leaf, Seq, Str, Num):
    def __init__(self):
        self._tabs, self._maps = {}, {}

    # ------------------------------------------------------------------ entry points for the interpreter
    def call(self, I, st, inst, info, name, targs, krate, args, argtys, destty):
        if info is not None:
            name, krate = info["n"], info["krate"]
            if not targs:
                targs = info["args"]
        c = Ctx(I, st, inst, info, name, targs, krate, list(args), argtys, destty)
        if destty is None and info is not None and info["body"]:
            c.destty = info["body"]["locals"][0]
        seg = last_seg(name)
        if krate in STD:
            r = self.std(c, seg)
        elif krate == I.p.d["crate"]:
            return NotImplemented
        else:
            r = self.leaf(c)
        if r is NotImplemented:
            return r
        return r if isinstance(r, list) else [(st, r)]

    def length(self, v):
        if isinstance(v, tuple) and v and v[0] == "map":
            return len(v[1])
        return length(v)

    def transmute(self, I, st, v, fty, tty):
        a, b = I.p.types[fty], I.p.types[tty]
        if a["k"] == b["k"] == "int":
            return v
        if is_arr(v) and b["k"] == "array" and I.p.types[a.get("t", fty)]["k"] == "int" and a.get("t") == b.get("t"):
            return v
        if a["k"] in ("ref", "ptr") and b["k"] in ("ref", "ptr"):
            return v
        if istop(v):
            return v
        return top("transmute")

    def drop_place(self, I, st, fid, body, t):
        return [st]

    # ------------------------------------------------------------------ dispatch
    def kind_of(self, I, st, c):
        for x in c.args[:1]:
            v = I.full(st, x)
            if istop(v):
                return "top", v
            if type(v) is int:
                return "int", v
            if type(v) is Term:
                return ("int" if v.op == "bv" else "bool"), v
            if isinstance(v, tuple) and v:
                return v[0], v
        return None, None

    def type_text(self, c):
        """the types a call is about, as text"""
        return " ".join([c.name] + [c.I.p.tstr(t) for t in list(c.targs or ()) + list(c.argtys or ()) if isinstance(t, int)])

    def std(self, c, seg):
        n = c.name
        ti = c.ti or ""
        I, st = c.I, c.st
        if ORDERS.match(seg) and seg not in CMPS and SIGNED.search(self.type_text(c)):
            raise Undecided("order of signed numbers: " + n)
        # panics
        if "panicking" in n or "unwrap_failed" in n or "expect_failed" in n or "begin_panic" in n or "slice_index_fail" in n or n.endswith("handle_alloc_error") \
                or seg in ("slice_start_index_len_fail", "slice_end_index_len_fail", "slice_index_order_fail", "len_mismatch_fail", "expect_none_failed"):
            if "panicking" in n and seg in ("panicking", "panic_count"):
                return NotImplemented
            I.panic(st, self.panic_text(c))
            return []
        if n.startswith("std::process::") or n.startswith("core::intrinsics::abort"):
            I.panic(st, "process ends: " + n)
            return []
        tr = ti or n
        if "iter::traits::iterator::Iterator::" in tr or "iter::traits::double_ended" in tr or "exact_size::ExactSizeIterator" in tr:
            return self.s_iter(c, seg)
        if "::iter::sources::" in n or n.startswith("core::iter::"):
            r = self.s_iterfn(c, seg)
            if r is not NotImplemented:
                return r
        if "::iter::adapters::" in n or "::iter::sources::" in n or "::iter::Peekable" in n:
            r = self.s_iter(c, seg)
            if r is not NotImplemented:
                return r
        m = re.match(r"(?:core|alloc|std)::fmt::(Display|Debug|LowerHex|UpperHex|Octal|Binary)::fmt$", tr)
        if m and c.argtys:
            return self.fmt_value(I, st, m.group(1), c.argtys[0], c.args[0], self.innermost(I, st, c.args[1]))
        if "ManuallyDrop" in (c.name + (c.argtys and I.p.tstr(c.argtys[0]).split("<")[0] or "")) and seg in ("new", "into_inner", "deref", "deref_mut", "take"):
            return c.args[0] if seg != "take" else I.full(st, c.args[0])
        r = self.s_trait(c, seg, ti, n)
        if r is not NotImplemented:
            return r
        if n.startswith("core::fmt::") or n.startswith("alloc::fmt::"):
            return self.s_fmt(c, seg)
        if n.startswith("core::mem::") or n.startswith("core::hint::") or n.startswith("core::ptr::") or n.startswith("core::intrinsics::") or n.startswith("core::cmp::") \
                or n.startswith("core::convert::") or n.startswith("core::array::from_fn") or n.startswith("core::array::<impl [T; N]>") or n.startswith("core::char::"):
            r = self.s_misc(c, seg)
            if r is not NotImplemented:
                return r
        if "core::num::<impl" in n or re.match(r"^(core::num::)?[iu](8|16|32|64|128|size)::", n) or "core::num::wrapping" in n:
            return self.s_num(c, seg)
        if "<impl char>" in n or n.startswith("core::char::") or "char::methods" in n:
            return self.s_char(c, seg)
        k, v = self.kind_of(I, st, c)
        if "HashMap" in n or "BTreeMap" in n or "hash::map" in n or "btree::map" in n:
            return self.s_map(c, seg, k, v)
        if "cell::" in n or "sync::" in n:
            return self.s_cell(c, seg)
        if "core::str::" in n or "alloc::str::" in n or "alloc::string::" in n or k == "str":
            if k == "top" and seg not in ("push_str", "push"):
                return self.top_result(c, v)
            r = self.s_str(c, seg)
            if r is not NotImplemented:
                return r
        if "slice" in n or "alloc::vec" in n or "core::array" in n or k == "arr" or "alloc::boxed" in n or "alloc::collections::vec_deque" in n:
            if k == "top" and seg not in ("push", "extend_from_slice", "truncate", "new", "with_capacity", "copy_from_slice", "clone_from_slice", "fill"):
                return self.top_result(c, v)
            r = self.s_seq(c, seg)
            if r is not NotImplemented:
                return r
        if "alloc::boxed" in n:
            if seg in ("new", "pin", "from"):
                return ("box", c.args[0])
            if seg in ("as_ref", "as_mut", "deref", "deref_mut"):
                return c.args[0]
        if "borrow::Cow" in n:
            return self.s_cow(c, seg)
        if "core::option" in n or "core::result" in n:
            return self.s_optres(c, seg)
        r = self.s_iterfn(c, seg)
        if r is not NotImplemented:
            return r
        return self.s_misc(c, seg)

    def top_result(self, c, v):
        if c.destty is not None and c.I.p.types[c.destty]["k"] in ("ref",):
            return ref(v)
        return v

    def panic_text(self, c):
        for x in c.args:
            v = c.I.full(c.st, x)
            if is_str(v) and all(isinstance(p, str) for p in v[1]):
                return "panic: " + "".join(v[1])
        return "panic"

    # ------------------------------------------------------------------ traits
    def s_trait(self, c, seg, ti, n):
        I, st, a = c.I, c.st, c.args
        t = ti or n
        m = re.search(r"(?:^|[ :<])(PartialEq|PartialOrd|Ord|Eq|Clone|Default|Deref|DerefMut|AsRef|AsMut|Borrow|BorrowMut|ToOwned|ToString|Extend|FromIterator"
                      r"|IntoIterator|Index|IndexMut|TryFrom|TryInto|From|Into|FromStr|Fn|FnMut|FnOnce|Hash|Hasher|Write|Error|Drop|Neg|Not|Add|Sub|Mul|Div|Rem|BitAnd|BitOr"
                      r"|BitXor|Shl|Shr|AddAssign|SubAssign|MulAssign|BitAndAssign|BitOrAssign|BitXorAssign|ShlAssign|ShrAssign|Try|FromResidual|Any|Termination)(?:<.*>)?::[a-z_]+$", t)
        if not m:
            return NotImplemented
        tr = m.group(1)
        if tr == "PartialEq":
            out = []
            for s, f in self.eqv(I, st, a[0], a[1]):
                out.append((s, f if istop(f) else f if seg == "eq" else Not(f)))
            return out
        if tr in ("PartialOrd", "Ord"):
            return self.s_ord(c, seg)
        if tr == "Clone":
            if seg == "clone_from":
                return [(s, self.ret_write(I, s, a[0], v)) for s, v in self.clone(I, st, I.deref(st, a[1]))]
            return self.clone(I, st, I.deref(st, a[0]))
        if tr == "ToOwned":
            v = I.full(st, a[0])
            return self.clone(I, st, v)
        if tr == "ToString":
            return self.to_string(c)
        if tr == "Default":
            return self.default(I, c.destty)
        if tr in ("Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut"):
            if c.krate not in STD:
                return NotImplemented
            v = I.full(st, a[0])
            if isinstance(v, tuple) and v and v[0] == "adt" and v[1] == "alloc::borrow::Cow":
                x = v[3][0]
                return x if isinstance(x, tuple) and x[0] in ("&", "&m") else ref(x)
            if is_str(v) and c.destty is not None and "[u8]" in I.p.tstr(c.destty):
                return ref(arr(str_bytes(v[1])))
            if isinstance(v, tuple) and v and v[0] == "adt" and seg in ("as_ref", "borrow", "deref"):
                b = c.info and c.info["body"]
                if b:
                    return NotImplemented
            return a[0]
        if tr in ("Index", "IndexMut"):
            v = I.full(st, a[0])
            if isinstance(v, tuple) and v and v[0] == "map":
                return self.map_get(c, v, "index")
            if is_str(v):
                return self.t_index(c)
            if istop(v):
                return ref(v)
            if is_arr(v):
                return self.q_index(c, tr == "IndexMut")
            return NotImplemented
        if tr == "IntoIterator":
            if c.info and c.info["body"] and not c.info["krate"] in STD:
                return NotImplemented
            return self.to_iter(I, st, a[0])
        if tr == "Extend":
            v = I.full(st, a[0])
            if is_str(v):
                return self.t_extend(c)
            if isinstance(v, tuple) and v and v[0] == "map":
                raise Undecided("extend of map")
            return self.q_extend(c)
        if tr == "FromIterator":
            return self.collect(c, self.to_iter(I, st, a[0]), c.destty)
        if tr in ("From", "Into", "TryFrom", "TryInto"):
            if c.info and c.info["body"]:
                return NotImplemented
            return self.s_from(c, tr)
        if tr == "FromStr":
            if c.info and c.info["body"]:
                return NotImplemented
            if "impl core::str::traits::FromStr for" in n and "core::num" in n:
                return self.s_num(c, "from_str")
            if "String" in n:
                return ok(self.sval(I, st, a[0]))
            if "char" in n:
                k = self.const_str(self.sval(I, st, a[0]))
                if k is not None:
                    return ok(ord(k)) if len(k) == 1 else err(top("char error"))
            raise Undecided("parse of " + n)
        if tr in ("Fn", "FnMut", "FnOnce") and seg in ("call", "call_mut", "call_once"):
            if c.info and c.info["body"]:
                return NotImplemented
            xs = list(a[1][1]) if isinstance(a[1], tuple) and a[1][0] == "tup" else [a[1]]
            return I.call_value(st, a[0], xs)
        if tr == "Write":
            if seg in ("write_str", "write_char", "write_fmt"):
                return self.s_fmt(c, seg)
            return NotImplemented
        if tr in ("Hash", "Hasher"):
            return top("hash")
        if tr == "Drop":
            return UNIT
        if tr in ("Add", "AddAssign"):
            v = I.full(st, a[0])
            if is_str(v):
                return self.t_add(c) if tr == "Add" else self.t_push_str(c)
        if tr in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "AddAssign", "SubAssign", "MulAssign", "BitAndAssign", "BitOrAssign",
                  "BitXorAssign", "ShlAssign", "ShrAssign", "Neg", "Not"):
            k, v = self.kind_of(I, st, c)
            if k == "int":
                return self.s_num(c, seg)
            if k == "bool":
                x = I.full(st, a[0])
                if seg == "not":
                    return Not(x)
                y = I.full(st, a[1])
                r = And(x, y) if "and" in seg else Or(x, y) if seg in ("bitor", "bitor_assign") else ff(b_xor(fb(x), fb(y)))
                if seg.endswith("_assign"):
                    I.write(st, a[0], r)
                    return UNIT
                return r
            return NotImplemented
        if tr == "Error":
            return top("error source")
        return NotImplemented

    def ret_write(self, I, s, r, v):
        I.write(s, self.innermost(I, s, r), v)
        return UNIT

    def clone(self, I, st, v):
        if isinstance(v, tuple) and v:
            if v[0] in ("&",):
                return [(st, v)]
            if v[0] == "&m":
                return self.clone(I, st, I.deref(st, v))
            if v[0] == "box":
                return [(s, ("box", x)) for s, x in self.clone(I, st, v[1])]
            if v[0] == "adt" and isinstance(v[1], int):
                imp = (I.p.types[v[1]].get("impls") or {}).get("clone")
                if isinstance(imp, int) and not isinstance(imp, bool) and I.p.insts[imp]["body"]:
                    return I.call_inst(imp, [ref(v)], st)
                return [(st, v)]
            if v[0] in ("adt", "tup", "arr"):
                subs = v[3] if v[0] == "adt" else v[1]
                if any(self.has_local(x) for x in subs):
                    cur = [(st, ())]
                    for x in subs:
                        cur = [(s2, acc + (y,)) for s, acc in cur for s2, y in self.clone(I, s, x)]
                    return [(s, v[:-1] + (xs,)) for s, xs in cur]
        return [(st, v)]

    def has_local(self, v):
        if not isinstance(v, tuple) or not v:
            return False
        if v[0] == "adt":
            return isinstance(v[1], int) or any(self.has_local(x) for x in v[3])
        if v[0] in ("tup", "arr"):
            return any(self.has_local(x) for x in v[1])
        if v[0] == "box":
            return self.has_local(v[1])
        return False

    def to_string(self, c):
        I, st, a = c.I, c.st, c.args
        ty = None
        if c.targs:
            ty = c.targs[0] if isinstance(c.targs[0], int) else None
        if ty is None and c.argtys:
            ty = c.argtys[0]
        v = I.full(st, a[0])
        if istop(v):
            return v
        out = []
        for s, x in self.render(I, st, "Display", ty, a[0]):
            if x is None:
                I.panic(s, "a Display implementation returned an error")
            else:
                out.append((s, x))
        return out

    def default(self, I, ty):
        if ty is None:
            return top("default")
        t = I.p.types[ty]
        k = t["k"]
        if k in ("int", "char"):
            return 0
        if k == "bool":
            return FALSE
        if k == "tuple":
            return ("tup", tuple(self.default(I, x) for x in t.get("ts") or []))
        if k == "array" and isinstance(t.get("len"), int):
            return arr((self.default(I, t["t"]),) * t["len"])
        if k == "ref":
            x = I.p.types[t["t"]]
            return ref(("str", ()) if x["k"] == "str" else ("arr", ()))
        if k == "adt":
            n = t["n"]
            if n.endswith("::String"):
                return ("str", ())
            if n.endswith("::Vec"):
                return ("arr", ())
            if n == OPT:
                return NONE
            if "HashMap" in n or "BTreeMap" in n:
                return ("map", (), ())
        return top("default of " + t["str"])

    # ------------------------------------------------------------------ equality and order
    def eqv(self, I, st, a, b):
        """[(state, formula or top)]"""
        a, b = I.full(st, a), I.full(st, b)
        if istop(a) or istop(b):
            return [(st, a if istop(a) else b)]
        if isinstance(a, tuple) and a[0] == "adt" and a[1] == "alloc::borrow::Cow":
            a = I.full(st, a[3][0])
        if isinstance(b, tuple) and b[0] == "adt" and b[1] == "alloc::borrow::Cow":
            b = I.full(st, b[3][0])
        if type(a) in (int, Term) and type(b) in (int, Term):
            ab = type(a) is Term and a.op != "bv"
            bb = type(b) is Term and b.op != "bv"
            if ab or bb:
                return [(st, Not(ff(b_xor(fb(a) if ab else a, fb(b) if bb else b))))]
            return [(st, eq(a, b, max(w_of(a), w_of(b)) if type(a) is Term or type(b) is Term else 128))]
        if is_str(a) and is_str(b):
            return [(st, str_eq(a[1], b[1]))]
        if is_str(a) or is_str(b):
            ea = str_bytes(a[1]) if is_str(a) else a[1]
            eb = str_bytes(b[1]) if is_str(b) else b[1]
            return [(st, els_eq(expand(st.g, ea), expand(st.g, eb)))]
        if is_arr(a) and is_arr(b):
            ea, eb = expand(st.g, a[1]), expand(st.g, b[1])
            if all(type(x) in (int, Term) for x in ea) and all(type(x) in (int, Term) for x in eb):
                if any(type(x) is Term and x.op not in ("bv", "sp") for x in ea + eb):
                    pass
                else:
                    return [(st, els_eq(ea, eb))]
            if not sized(ea) or not sized(eb):
                raise Undecided("comparison of sequences")
            if len(ea) != len(eb):
                return [(st, FALSE)]
            return self.eq_all(I, st, ea, eb)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == "tup" and b[0] == "tup":
                return self.eq_all(I, st, a[1], b[1])
            if a[0] == "adt" and b[0] == "adt":
                if isinstance(a[1], int):
                    imp = (I.p.types[a[1]].get("impls") or {}).get("eq")
                    if isinstance(imp, int) and not isinstance(imp, bool) and I.p.insts[imp]["body"]:
                        return I.call_inst(imp, [ref(a), ref(b)], st)
                    return [(st, top("equality of " + I.p.tstr(a[1])))]
                if a[1] in (OPT, RES, ORD, CF) or a[1].startswith(("core::ops::range", "core::cmp::Reverse")):
                    if a[2] != b[2]:
                        return [(st, FALSE)]
                    return self.eq_all(I, st, a[3], b[3])
                if "PublicKey" in str(a[1]):
                    return [(st, els_eq(self.pk_ser(self.pk_x(I, st, a)), self.pk_ser(self.pk_x(I, st, b))))]
                if "SecretKey" in str(a[1]):
                    return [(st, els_eq(self.sk_bytes(I, st, a), self.sk_bytes(I, st, b)))]
                if a == b:
                    return [(st, TRUE)]
        return [(st, top("equality of %s and %s" % (a[0] if isinstance(a, tuple) else "value", b[0] if isinstance(b, tuple) else "value")))]

    def eq_all(self, I, st, xs, ys):
        cur = [(st, TRUE)]
        for x, y in zip(xs, ys):
            nxt = []
            for s, f in cur:
                if istop(f) or f is FALSE:
                    nxt.append((s, f))
                    continue
                for s2, g in self.eqv(I, s, x, y):
                    nxt.append((s2, g if istop(g) else And(f, g)))
            cur = nxt
        return cur

    def cmpv(self, I, st, a, b):
        """[(state, -1 | 0 | 1)]"""
        a, b = I.full(st, a), I.full(st, b)
        if istop(a) or istop(b):
            raise Undecided("order: " + str((a if istop(a) else b)[1]))
        if type(a) in (int, Term) and type(b) in (int, Term):
            w = max(w_of(a), w_of(b)) if type(a) is Term and a.op == "bv" or type(b) is Term and b.op == "bv" else 128
            if type(a) is Term and a.op != "bv" or type(b) is Term and b.op != "bv":
                a = a if type(a) is int else mkbv((fb(a),))
                b = b if type(b) is int else mkbv((fb(b),))
                w = 1
            y, n = I.split(st, ult(a, b, w, st.g))
            out = [(s, -1) for s in y]
            for s in n:
                e, g = I.split(s, eq(a, b, w))
                out += [(q, 0) for q in e] + [(q, 1) for q in g]
            return out
        if is_str(a) and is_str(b):
            ka, kb = skey(a[1]), skey(b[1])
            if isinstance(ka, str) and isinstance(kb, str):
                x, y = ka.encode(), kb.encode()
                return [(st, (x > y) - (x < y))]
            e, n = I.split(st, str_eq(a[1], b[1]))
            out = [(s, 0) for s in e]
            for s in n:
                f = None
                if isT(ka, "pick") and isinstance(kb, str):
                    f = pick_in(ka, "<", kb)
                elif isT(kb, "pick") and isinstance(ka, str):
                    f = pick_in(kb, ">", ka)
                l, g = I.split(s, P("seqlt", ka, kb) if f is None else f)
                out += [(q, -1) for q in l] + [(q, 1) for q in g]
            return out
        if is_arr(a) and is_arr(b):
            ea, eb = self.sized_els(I, st, a), self.sized_els(I, st, b)
            return self.lex(I, st, ea, eb)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == "tup":
                return self.lex(I, st, a[1], b[1])
            if a[0] == "adt" and b[0] == "adt":
                if isinstance(a[1], int):
                    imp = (I.p.types[a[1]].get("impls") or {}).get("cmp")
                    if isinstance(imp, int) and not isinstance(imp, bool) and I.p.insts[imp]["body"]:
                        return [(s, v[2] - 1) for s, v in I.call_inst(imp, [ref(a), ref(b)], st)]
                elif a[2] != b[2]:
                    return [(st, -1 if a[2] < b[2] else 1)]
                elif a[1] in (OPT, RES, ORD):
                    return self.lex(I, st, a[3], b[3])
        raise Undecided("order of %s" % (a[0] if isinstance(a, tuple) else "value"))

    def lex(self, I, st, xs, ys):
        out, cur = [], [st]
        for x, y in zip(xs, ys):
            nxt = []
            for s in cur:
                for s2, k in self.cmpv(I, s, x, y):
                    (out.append((s2, k)) if k else nxt.append(s2))
            cur = nxt
            if len(out) > 3000:
                raise Undecided("comparison splits too much")
        k = (len(xs) > len(ys)) - (len(xs) < len(ys))
        return out + [(s, k) for s in cur]

    def s_ord(self, c, seg):
        I, st, a = c.I, c.st, c.args
        if c.info and c.info["body"] and c.info["krate"] not in STD:
            return NotImplemented
        keep = a
        if SIGNED.search(self.type_text(c)):
            t = c.argtys and I.p.types[c.argtys[0]]
            while t and t["k"] in ("ref", "ptr"):
                t = I.p.types[t["t"]]
            a = [I.full(st, x) for x in a]
            if not t or t["k"] != "int" or not t["s"] or seg == "clamp" or not all(type(x) in (int, Term) for x in a):
                raise Undecided("order of signed numbers")
            a = [biased(x, t["w"]) for x in a]
        if seg in ("lt", "le", "gt", "ge"):
            x, y = I.full(st, a[0]), I.full(st, a[1])
            if type(x) in (int, Term) and type(y) in (int, Term) and not (type(x) is Term and x.op != "bv") and not (type(y) is Term and y.op != "bv"):
                w = max(w_of(x), w_of(y)) if type(x) is Term or type(y) is Term else 128
                return {"lt": lambda: ult(x, y, w, st.g), "gt": lambda: ult(y, x, w, st.g), "le": lambda: Not(ult(y, x, w, st.g)),
                        "ge": lambda: Not(ult(x, y, w, st.g))}[seg]()
            f = {"lt": lambda k: k < 0, "le": lambda k: k <= 0, "gt": lambda k: k > 0, "ge": lambda k: k >= 0}[seg]
            return [(s, TRUE if f(k) else FALSE) for s, k in self.cmpv(I, st, x, y)]
        if seg in ("cmp", "partial_cmp"):
            wrap = some if seg == "partial_cmp" else (lambda v: v)
            return [(s, wrap(ordering(k))) for s, k in self.cmpv(I, st, a[0], a[1])]
        if seg in ("max", "min"):
            out = []
            for s, k in self.cmpv(I, st, a[0], a[1]):
                out.append((s, (keep[1] if k <= 0 else keep[0]) if seg == "max" else (keep[0] if k <= 0 else keep[1])))
            return out
        if seg == "clamp":
            return self.s_num(c, seg)
        return NotImplemented
