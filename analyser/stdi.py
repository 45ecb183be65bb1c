"""Iterator methods, collecting, formatting entry points, conversions and miscellany."""
import re

from core import *
from interp import *
from vals import *
from numm import SIGNED
from iters import last_seg, it_list, is_range
from fmtm import NOSPEC, ALT, PLUS, ZERO
from seqm import ordering, ORD

CF = "core::ops::control_flow::ControlFlow"


class StdI:
    # ------------------------------------------------------------------ iterator methods
    ADAPT1 = {"map": "map", "filter": "filter", "filter_map": "filter_map", "map_while": "map_while", "take_while": "take_while",
              "skip_while": "skip_while", "inspect": "inspect"}

    def s_iter(self, c, seg):
        I, st, a = c.I, c.st, c.args
        if c.info and c.info["body"] and c.info["krate"] not in STD:
            return NotImplemented
        if seg in self.ADAPT1:
            return ("it", self.ADAPT1[seg], self.to_iter(I, st, a[0]), a[1])
        if seg == "enumerate":
            return ("it", "enumerate", self.to_iter(I, st, a[0]), 0)
        if seg == "zip":
            return ("it", "zip", self.to_iter(I, st, a[0]), self.to_iter(I, st, a[1]))
        if seg == "chain":
            return ("it", "chain", self.to_iter(I, st, a[0]), self.to_iter(I, st, a[1]))
        if seg in ("cloned", "copied"):
            return ("it", "cloned", self.to_iter(I, st, a[0]))
        if seg in ("take", "skip"):
            it = self.to_iter(I, st, a[0])
            n = st.g.const(a[1])
            if n is not None and it[0] == "it" and it[1] == "list":
                lo, hi = it[3], it[4]
                if seg == "take":
                    return ("it", "list", it[2], lo, min(hi, lo + n))
                return ("it", "list", it[2], min(hi, lo + n), hi)
            return ("it", seg, it, a[1])
        if seg == "step_by":
            n = st.g.const(a[1])
            if n is None:
                raise Undecided("step_by")
            if n == 0:
                I.panic(st, "step_by(0)")
                return []
            xs = self.pure_list(st, self.to_iter(I, st, a[0]))
            if xs is not None:
                return it_list(xs[::n])
            return ("it", "step_by", self.to_iter(I, st, a[0]), n, True)
        if seg == "flat_map":
            return ("it", "flatten", self.to_iter(I, st, a[0]), a[1], None)
        if seg == "flatten":
            return ("it", "flatten", self.to_iter(I, st, a[0]), None, None)
        if seg == "scan":
            return ("it", "scan", self.to_iter(I, st, a[0]), a[1], a[2])
        if seg == "peekable":
            return ("it", "peekable", self.to_iter(I, st, a[0]), ())
        if seg == "rev":
            return self.rev(I, st, self.to_iter(I, st, a[0]))
        if seg == "fuse":
            return ("it", "fuse", self.to_iter(I, st, a[0]))
        if seg == "cycle":
            it = self.to_iter(I, st, a[0])
            return ("it", "cycle", it, it)
        if seg in ("by_ref",):
            return a[0]
        if seg == "into_iter":
            return self.to_iter(I, st, a[0])
        if seg in ("next", "next_back", "nth", "peek", "nth_back", "next_if", "next_if_eq"):
            return self.it_next(c, seg)
        if seg == "as_slice":
            v = I.full(st, a[0])
            xs = self.pure_list(st, v)
            if xs is None:
                raise Undecided("as_slice")
            return ref(arr([I.deref(st, x) if isinstance(x, tuple) and x[0] == "&" else x for x in xs]))
        # consumers; the iterator may be borrowed
        if seg in ("all", "any", "find", "find_map", "position", "rposition", "try_fold", "try_for_each", "size_hint", "len"):
            return self.it_short(c, seg)
        it = self.to_iter(I, st, a[0])
        if seg == "count":
            n = self.size(I, st, it)
            if n is not None and not self.effects(it):
                return n
            return [(s, len(x)) for s, x in self.items(I, st, it)]
        if seg == "last":
            return [(s, some(x[-1]) if x else NONE) for s, x in self.items(I, st, it)]
        if seg == "fold" or seg == "rfold":
            if seg == "rfold":
                it = self.rev(I, st, it)
            return [(s, acc[0]) for s, acc, _ in self.drive(I, st, it, (a[1], a[2]), lambda s, acc, x: [
                (s2, (v, f), False) for s2, v, f in I.call_fn(s, acc[1], [acc[0], x])])]
        if seg == "for_each":
            return [(s, UNIT) for s, acc, _ in self.drive(I, st, it, a[1], lambda s, f, x: [(s2, f2, False) for s2, v, f2 in I.call_fn(s, f, [x])])]
        if seg == "reduce":
            def red(s, acc, x):
                if acc[0] is None:
                    return [(s, (x, acc[1]), False)]
                return [(s2, (v, f), False) for s2, v, f in I.call_fn(s, acc[1], [acc[0], x])]
            return [(s, some(acc[0]) if acc[0] is not None else NONE) for s, acc, _ in self.drive(I, st, it, (None, a[1]), red)]
        if seg in ("sum", "product"):
            w, sg = I.width(c.destty) if c.destty is not None else (64, False)
            out = []
            for s, xs in self.items(I, st, it):
                acc = 0 if seg == "sum" else 1
                cur = [(s, acc)]
                for x in xs:
                    v = I.full(s, x)
                    if istop(v):
                        cur = [(q, v) for q, _ in cur]
                        break
                    nxt = []
                    for q, k in cur:
                        if I.p.ov:
                            y, n = I.split(q, I.overflow(q.g, "Add" if seg == "sum" else "Mul", k, v, w, sg))
                            for z in y:
                                I.panic(z, "arithmetic overflow")
                        else:
                            n = [q]
                        nxt += [(z, (add if seg == "sum" else mul)(k, v, w)) for z in n]
                    cur = nxt
                out += cur
            return out
        if seg in ("max", "min", "max_by_key", "min_by_key", "max_by", "min_by"):
            if seg in ("max_by_key", "min_by_key"):
                out = []
                for s, xs in self.items(I, st, it):
                    cur = [(s, None, None, a[1])]
                    for x in xs:
                        nxt = []
                        for s2, b, kb, f in cur:
                            for s3, kx, f2 in I.call_fn(s2, f, [ref(x)]):
                                if b is None:
                                    nxt.append((s3, x, kx, f2))
                                    continue
                                for s4, o in self.cmpv(I, s3, kb, kx):
                                    new = o <= 0 if seg == "max_by_key" else o > 0
                                    nxt.append((s4, x, kx, f2) if new else (s4, b, kb, f2))
                        if len(nxt) > 600:
                            raise Undecided(seg + " over many cases")
                        cur = nxt
                    out += [(q, NONE if kb is None and b is None else some(b)) for q, b, kb, _ in cur]
                return out
            if "_by" in seg or c.destty is not None and SIGNED.search(I.p.tstr(c.destty)):
                raise Undecided(seg)
            out = []
            for s, xs in self.items(I, st, it):
                if not xs:
                    out.append((s, NONE))
                    continue
                cur = [(s, xs[0])]
                for x in xs[1:]:
                    cur = [(s3, (x if k <= 0 else b) if seg == "max" else (b if k <= 0 else x)) for s2, b in cur for s3, k in self.cmpv(I, s2, b, x)]
                out += [(q, some(b)) for q, b in cur]
            return out
        if seg == "collect" or seg == "from_iter":
            return self.collect(c, it, c.destty)
        if seg == "unzip":
            out = []
            for s, xs in self.items(I, st, it):
                out.append((s, ("tup", (arr([x[1][0] for x in xs]), arr([x[1][1] for x in xs])))))
            return out
        if seg == "partition":
            def part(s, acc, x):
                out = []
                for s2, f, g in I.call_fn(s, acc[2], [ref(x)]):
                    self.want_bool(f)
                    y, n = I.split(s2, f)
                    out += [(q, (acc[0] + (x,), acc[1], g), False) for q in y]
                    out += [(q, (acc[0], acc[1] + (x,), g), False) for q in n]
                return out
            return [(s, ("tup", (arr(acc[0]), arr(acc[1])))) for s, acc, _ in self.drive(I, st, it, ((), (), a[1]), part)]
        if seg in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge"):
            if seg not in ("eq", "ne") and SIGNED.search(self.type_text(c)):
                raise Undecided("order of signed numbers")
            out = []
            for s, xs in self.items(I, st, it):
                for s2, ys in self.items(I, s, self.to_iter(I, s, a[1])):
                    if seg in ("eq", "ne"):
                        if len(xs) != len(ys):
                            out.append((s2, FALSE if seg == "eq" else TRUE))
                            continue
                        out += [(s3, f if seg == "eq" or istop(f) else Not(f)) for s3, f in self.eq_all(I, s2, xs, ys)]
                    elif seg in ("cmp", "partial_cmp"):
                        out += [(s3, ordering(k) if seg == "cmp" else some(ordering(k))) for s3, k in self.lex(I, s2, xs, ys)]
                    else:
                        raise Undecided("iterator comparison")
            return out
        if seg in ("is_sorted", "is_sorted_by", "is_sorted_by_key"):
            raise Undecided(seg)
        return NotImplemented

    def effects(self, it):
        return False

    def loc_of(self, I, st, r):
        """innermost mutable location of an iterator reference, following nested references"""
        return self.innermost(I, st, r)

    def it_next(self, c, seg):
        I, st, a = c.I, c.st, c.args
        if a[0][0] != "&m":
            raise Undecided("next on " + str(a[0][0]))
        L = self.loc_of(I, st, a[0])
        it = I.read(st, L[1], L[2])
        out = []
        if seg == "next":
            for s, n, x in self.inext(I, st, it):
                I.write(s, L, n)
                out.append((s, NONE if x is None else some(x)))
            return out
        if seg == "peek":
            if it[3]:
                x = it[3][0]
                return some(ref(x)) if x is not None else NONE
            for s, n, x in self.inext(I, st, it):
                if x is None:
                    I.write(s, L, ("it", "list", (), 0, 0))
                    out.append((s, NONE))
                else:
                    I.write(s, L, ("it", "peekable", n[2], (x,)))
                    out.append((s, some(ref(x))))
            return out
        if seg in ("next_if", "next_if_eq"):
            for s, n, x in self.inext(I, st, it):
                if x is None:
                    I.write(s, L, n)
                    out.append((s, NONE))
                    continue
                res = [(s2, f) for s2, f, _ in I.call_fn(s, a[1], [ref(x)])] if seg == "next_if" else self.eqv(I, s, ref(x), a[1])
                for s2, f in res:
                    self.want_bool(f)
                    y, no = I.split(s2, f)
                    for q in y:
                        I.write(q, L, n)
                        out.append((q, some(x)))
                    for q in no:
                        I.write(q, L, ("it", "peekable", n[2], (x,)))
                        out.append((q, NONE))
            return out
        if seg == "nth":
            n = st.g.const(a[1])
            if n is None:
                xs = self.pure_list(st, it)
                if xs is None:
                    raise Undecided("nth at symbolic position")
                y, no = I.split(st, ult(a[1], len(xs), 64, st.g))
                for s in no:
                    I.write(s, L, it_list(()))
                    out.append((s, NONE))
                for s in y:
                    v = self.select(I, s, ("arr", tuple(xs)), a[1])
                    if istop(v):
                        for s2, k in self.values_of(I, s, a[1], 300):
                            I.write(s2, L, it_list(xs[k + 1:]))
                            out.append((s2, some(xs[k])))
                        continue
                    I.write(s, L, top("iterator after symbolic nth"))
                    out.append((s, some(v)))
                return out
            if n > 100000:
                raise Undecided("nth")
            if it[0] == "it" and it[1] == "list":
                lo, hi = it[3], it[4]
                if lo + n >= hi:
                    I.write(st, L, ("it", "list", it[2], hi, hi))
                    return NONE
                I.write(st, L, ("it", "list", it[2], lo + n + 1, hi))
                return some(it[2][lo + n])
            cur = [(st, it)]
            for _ in range(n):
                nxt = []
                for s, i in cur:
                    for s2, i2, x in self.inext(I, s, i):
                        if x is None:
                            I.write(s2, L, i2)
                            out.append((s2, NONE))
                        else:
                            nxt.append((s2, i2))
                cur = nxt
            for s, i in cur:
                for s2, i2, x in self.inext(I, s, i):
                    I.write(s2, L, i2)
                    out.append((s2, NONE if x is None else some(x)))
            return out
        if seg == "next_back":
            for s, n, x in self.inext(I, st, self.rev(I, st, it)):
                if n[0] == "it" and n[1] == "list":
                    xs = n[2][n[3]:n[4]]
                    I.write(s, L, it_list(xs[::-1]))
                else:
                    I.write(s, L, self.rev(I, s, n))
                out.append((s, NONE if x is None else some(x)))
            return out
        raise Undecided(seg)

    def it_short(self, c, seg):
        I, st, a = c.I, c.st, c.args
        byref = a[0][0] == "&m"
        L = self.loc_of(I, st, a[0]) if byref else None
        it = I.read(st, L[1], L[2]) if byref else self.to_iter(I, st, a[0])
        if byref and is_arr(it):
            it = self.to_iter(I, st, a[0])
            L = None
        if seg in ("size_hint", "len"):
            it2 = I.full(st, a[0])
            n = self.size(I, st, it2)
            if n is None:
                if seg == "len":
                    return [(s, len(x)) for s, x in self.items(I, st.copy(), it2)][:1] if False else top("iterator length")
                return ("tup", (0, NONE))
            return n if seg == "len" else ("tup", (n, some(n)))

        def fin(res):
            out = []
            for s, v, i2 in res:
                if L is not None:
                    I.write(s, L, i2)
                out.append((s, v))
            return out
        if seg in ("all", "any", "find", "position"):
            xs = self.pure_list(st, it)
            if xs is not None and len(xs) > 48:
                r = self.bulk(c, seg, xs, it)
                if r is not None:
                    return fin([(x + (top("iterator partly used"),))[:3] for x in r])
        if seg in ("all", "any"):
            def body(s, acc, x):
                out = []
                for s2, f, g in I.call_fn(s, acc[1], [x]):
                    self.want_bool(f)
                    y, n = I.split(s2, f)
                    out += [(q, ((TRUE if seg == "any" else acc[0]), g), seg == "any") for q in y]
                    out += [(q, ((FALSE if seg == "all" else acc[0]), g), seg == "all") for q in n]
                return out
            return fin([(s, acc[0], i2) for s, acc, i2 in self.drive(I, st, it, (TRUE if seg == "all" else FALSE, a[1]), body)])
        if seg == "rposition":
            xs = self.pure_list(st, it)
            if xs is None:
                raise Undecided(seg)
            def body(s, acc, x):
                out = []
                for s2, f, g in I.call_fn(s, acc[2], [x]):
                    self.want_bool(f)
                    y, n = I.split(s2, f)
                    out += [(q, (some(acc[1]), acc[1], g), True) for q in y] + [(q, (NONE, acc[1] - 1, g), False) for q in n]
                return out
            return fin([(s, acc[0], i2) for s, acc, i2 in self.drive(I, st, it_list(xs[::-1]), (NONE, len(xs) - 1, a[1]), body)])
        if seg in ("find", "position"):
            def body(s, acc, x):
                out = []
                for s2, f, g in I.call_fn(s, acc[2], [ref(x) if seg == "find" else x]):
                    self.want_bool(f)
                    y, n = I.split(s2, f)
                    out += [(q, (some(x if seg == "find" else acc[1]), acc[1], g), True) for q in y]
                    out += [(q, (NONE, acc[1] + 1, g), False) for q in n]
                return out
            return fin([(s, acc[0], i2) for s, acc, i2 in self.drive(I, st, it, (NONE, 0, a[1]), body)])
        if seg == "find_map":
            def body(s, acc, x):
                out = []
                for s2, v, g in I.call_fn(s, acc[1], [x]):
                    self.want_adt(v)
                    out.append((s2, (v, g), v[2] == 1))
                return out
            return fin([(s, acc[0], i2) for s, acc, i2 in self.drive(I, st, it, (NONE, a[1]), body)])
        if seg in ("try_fold", "try_for_each"):
            fold = seg == "try_fold"

            def body(s, acc, x):
                out = []
                for s2, v, g in I.call_fn(s, acc[2], [acc[0], x] if fold else [x]):
                    self.want_adt(v)
                    stop = (v[1] == OPT and v[2] == 0) or (v[1] == RES and v[2] == 1) or (v[1] == CF and v[2] == 1)
                    out.append((s2, (v[3][0] if v[3] and not stop else None, v, g), stop))
                return out
            dt = I.p.tstr(c.destty) if c.destty is not None else ""
            wrap = some if "Option<" in dt[:24] else (lambda v: ("adt", CF, 0, (v,))) if "ControlFlow<" in dt[:48] else ok
            a0 = a[1] if fold else UNIT
            res = []
            for s, acc, i2 in self.drive(I, st, it, (a0, None, a[2] if fold else a[1]), body):
                v = acc[1]
                stop = v is not None and ((v[1] == OPT and v[2] == 0) or (v[1] == RES and v[2] == 1) or (v[1] == CF and v[2] == 1))
                res.append((s, v if stop else wrap(acc[0] if fold else UNIT), i2))
            return fin(res)
        return NotImplemented

    def bulk(self, c, seg, xs, it):
        """a predicate over a long constant list: evaluate it on every item without branching"""
        I, st, a = c.I, c.st, c.args
        # what the path already knows may settle it early
        early = True
        fs = []
        for i, x in enumerate(xs):
            f = self.preds(I, st, a[1], [ref(x) if seg == "find" else x])
            if f is None:
                return None
            f = f[0]
            if early and f is not TRUE and f is not FALSE:
                if not list(st.g.assume(f)):
                    f = FALSE
                elif not list(st.g.assume(Not(f))):
                    f = TRUE
                else:
                    early = False
            fs.append(f)
            if early and f is (FALSE if seg == "all" else TRUE):
                if seg in ("any", "all"):
                    return [(st, TRUE if seg == "any" else FALSE, it_list(xs[i + 1:]))]
                return [(st, some(i if seg == "position" else x), it_list(xs[i + 1:]))]
            if not early and seg in ("find", "position") and f is not FALSE and not (f is TRUE or f.op == "p" and f.args[0] == "streq"):
                return None
        if seg == "all":
            fs = [Not(f) for f in fs]
        hits = [i for i, f in enumerate(fs) if f is TRUE]
        und = [i for i, f in enumerate(fs) if f is not TRUE and f is not FALSE]
        if not und:
            if seg in ("any", "all"):
                return [(st, (TRUE if hits else FALSE) if seg == "any" else (FALSE if hits else TRUE))]
            if not hits:
                return [(st, NONE)]
            return [(st, some(hits[0] if seg == "position" else xs[hits[0]]))]
        # equality with the words of a table
        words = [I.full(st, x) for x in xs]
        if all(is_str(w) for w in words):
            ks = [skey(w[1]) for w in words]
            tgt = None
            for i, f in enumerate(fs):
                if f is FALSE and i not in und:
                    continue
                if f.op == "p" and f.args[0] == "streq" and f.args[2] == ks[i]:
                    if tgt is None:
                        tgt = f.args[1]
                    if f.args[1] is tgt:
                        continue
                tgt = False
                break
            if tgt and all(streq_const(tgt, k) is f for k, f in zip(ks, fs)) and len(set(ks)) == len(ks):
                key = table_key(ks)
                g, idx = in_list(key, tgt)
                if seg in ("any", "all"):
                    return [(st, g if seg == "any" else Not(g))]
                y, n = I.split(st, g)
                out = [(s, NONE) for s in n]
                for s in y:
                    i = self.widen(idx, 64)
                    out.append((s, some(i if seg == "position" else self.select(I, s, ("arr", tuple(xs)), i))))
                return out
        # index into a word of the table: equality with a table word
        if all(is_str(w) for w in words) and all(f is FALSE or f.op in ("and", "in", "b", "eqs", "not") or True for f in fs):
            if seg in ("any", "all"):
                f = Or(*fs)
                return [(st, f if seg == "any" else Not(f))]
        return None

    def preds(self, I, st, f, xs):
        """formulas of a pure predicate on each item, or None"""
        out = []
        for x in xs:
            s0 = st.copy()
            r = I.call_fn(s0, f, [x])
            if len(r) != 1 or istop(r[0][1]) or type(r[0][1]) is not Term:
                return None
            if r[0][2] is not f and r[0][2] != f:
                return None
            out.append(r[0][1])
        return out

    # ------------------------------------------------------------------ collecting
    def collect(self, c, it, ty):
        I, st = c.I, c.st
        t = I.p.types[ty] if ty is not None else None
        if t is None:
            raise Undecided("collect into unknown type")
        n = t["n"] if t["k"] == "adt" else ""
        if n in (RES, OPT):
            inner = t["args"][0]
            stopv = 1 if n == RES else 0
            src = it

            def body(s, acc, x):
                self.want_adt(x)
                if x[2] == stopv:
                    return [(s, (acc[0], x), True)]
                return [(s, (acc[0] + (x[3][0],), None), False)]
            out = []
            for s, acc, _ in self.drive(I, st, src, ((), None), body):
                if acc[1] is not None:
                    out.append((s, err(acc[1][3][0]) if n == RES else NONE))
                else:
                    c2 = c.alt(st=s)
                    r = self.collect(c2, it_list(acc[0]), inner)
                    out += [(s2, ok(v) if n == RES else some(v)) for s2, v in r]
            return out
        if n.endswith("::String") or (n.endswith("::Cow") and "str" in t["str"]) or (n.endswith("Box") and t["str"].endswith("<str>")):
            return [(s, string(*p)) for s, p in self.gather_text(I, st, it)]
        if t["k"] == "tuple" and not t.get("ts"):
            return [(s, UNIT) for s, _ in self.items(I, st, it)]
        if "HashMap" in n or "BTreeMap" in n:
            return [(s, self.make_map(I, s, xs)) for s, xs in self.items(I, st, it)]
        if n.endswith("Zeroizing"):
            return self.collect(c, it, t["args"][0])
        if n.endswith("::Vec") or n.endswith("::Box") or n.endswith("VecDeque"):
            r = self.cond_filter(I, st, it)
            if r is not None:
                return [(st, r)]
            if it[0] == "it" and it[1] in ("list", "cloned", "copied"):
                src = it
                while src[0] == "it" and src[1] in ("cloned",):
                    src = src[2]
                if src[0] == "it" and src[1] == "list":
                    raw = src[2][src[3]:src[4]]
                    vals = [I.deref(st, x) if isinstance(x, tuple) and x[0] == "&" and it is not src else x for x in raw]
                    if any(isT(v, "sp") for v in vals):
                        return [(st, arr(vals))]
            return [(s, arr(x)) for s, x in self.items(I, st, it)]
        if isinstance(t.get("impls"), dict) and isinstance(t["impls"].get("from_iter"), int) and not isinstance(t["impls"]["from_iter"], bool):
            return I.call_inst(t["impls"]["from_iter"], [it], st)
        raise Undecided("collect into " + t["str"])

    def cond_filter(self, I, st, it):
        """filter over a long constant list by a predicate that stays symbolic"""
        maps = []
        while it[0] == "it" and it[1] in ("cloned", "filter") and it[1] == "cloned":
            maps.append("cloned")
            it = it[2]
        if it[0] != "it" or it[1] != "filter":
            return None
        xs = self.pure_list(st, it[2])
        cl = False
        if xs is None and it[2][0] == "it" and it[2][1] == "cloned":
            xs = self.pure_list(st, it[2][2])
            cl = True
        if xs is None or len(xs) <= 48:
            return None
        if cl:
            xs = [I.deref(st, x) for x in xs]
        fs = self.preds(I, st, it[3], [ref(x) for x in xs])
        if fs is None:
            return None
        if maps:
            xs = [I.deref(st, x) if isinstance(x, tuple) and x[0] == "&" else x for x in xs]
        if all(f is TRUE or f is FALSE for f in fs):
            return arr([x for x, f in zip(xs, fs) if f is TRUE])
        return ("cond", tuple(xs), tuple(fs))

    # free functions that make iterators
    def s_iterfn(self, c, seg):
        a = c.args
        n = c.name
        if "iter::sources" in n or "core::iter" in n:
            if seg == "once":
                return it_list([a[0]])
            if seg == "empty":
                return it_list(())
            if seg == "repeat":
                return ("it", "repeat", a[0])
            if seg == "repeat_n":
                k = c.st.g.const(a[1])
                if k is not None:
                    return it_list([a[0]] * k)
            if seg == "repeat_with":
                return ("it", "repeat_with", a[0])
            if seg == "from_fn":
                return ("it", "from_fn", a[0])
            if seg == "successors":
                return ("it", "successors", a[0], a[1])
            if seg == "zip":
                return ("it", "zip", self.to_iter(c.I, c.st, a[0]), self.to_iter(c.I, c.st, a[1]))
        return NotImplemented

    # ------------------------------------------------------------------ formatting
    def s_fmt(self, c, seg):
        I, st, a = c.I, c.st, c.args
        n = c.name
        if seg.startswith("new_") and "Argument" in n:
            tr = {"new_display": "Display", "new_debug": "Debug", "new_lower_hex": "LowerHex", "new_upper_hex": "UpperHex", "new_octal": "Octal", "new_binary": "Binary",
                  "new_pointer": "Pointer", "new_lower_exp": "LowerExp", "new_upper_exp": "UpperExp"}.get(seg)
            if tr:
                ty = c.targs[-1] if c.targs and isinstance(c.targs[-1], int) else None
                for x in c.targs or []:
                    if isinstance(x, int):
                        ty = x
                return ("fmtarg", tr, a[0], ty)
        if seg == "from_usize" and "Argument" in n:
            return ("fmtarg", "usize", I.full(st, a[0]), None)
        if "Arguments" in n:
            if seg in ("new", "new_v1", "new_const"):
                tpl = I.full(st, a[0])
                args = I.full(st, a[1])[1] if len(a) > 1 else ()
                if is_arr(tpl):
                    tpl = bytes(tpl[1])
                return ("fmtargs", tpl, tuple(args))
            if seg in ("from_str", "from_str_nonconst"):
                return ("fmtargs", I.full(st, a[0]), ())
            if seg == "as_str":
                v = I.full(st, a[0])
                return some(ref(v[1])) if is_str(v[1]) else NONE
            if seg in ("as_statically_known_str",):
                return NONE
        if seg == "format" or seg == "format_inner":
            v = a[0]
            if istop(v):
                return v
            return self.format_to_string(I, st, v)
        if seg in ("write_fmt",) or n == "core::fmt::write":
            sink = a[0]
            tv_ = I.full(st, sink)
            if istop(tv_):
                return ok(UNIT)
            if isinstance(tv_, tuple) and tv_[0] == "adt":
                return NotImplemented
            return self.format_args(I, st, self.innermost(I, st, sink), I.full(st, a[1]))
        if seg in ("write_str", "pad"):
            v = I.full(st, a[1])
            sink = self.innermost(I, st, a[0])
            cur = I.read(st, sink[1], sink[2]) if sink[0] == "&m" else None
            if istop(v):
                self.emit(I, st, sink, (T("top", str(v[1])),))
                return ok(UNIT)
            parts = self.sval(I, st, v)[1]
            if seg == "pad":
                spec, sink = self.spec_of(I, st, sink)
                parts = self.pad_str(parts, spec)
            self.emit(I, st, sink, parts)
            return ok(UNIT)
        if seg == "write_char":
            self.emit(I, st, self.innermost(I, st, a[0]), (self.chpart(st, a[1]),))
            return ok(UNIT)
        if "Formatter" in n or "FormattingOptions" in n:
            f = I.full(st, a[0]) if a else None
            if istop(f):
                return f
            spec = f[2] if isinstance(f, tuple) and f[0] == "fmtr" else NOSPEC
            if seg == "alternate":
                return TRUE if spec[0] & ALT else FALSE
            if seg == "sign_plus":
                return TRUE if spec[0] & PLUS else FALSE
            if seg == "sign_aware_zero_pad":
                return TRUE if spec[0] & ZERO else FALSE
            if seg in ("width", "precision"):
                k = spec[1] if seg == "width" else spec[2]
                return NONE if k is None else some(k)
            if seg == "fill":
                return spec[0] & 0x1FFFFF
            if seg == "pad_integral":
                digits = I.full(st, a[3])[1]
                pre = "".join(I.full(st, a[2])[1])
                nonneg = st.g.eval(a[1])
                if nonneg is None:
                    raise Undecided("pad_integral")
                _, sink = self.spec_of(I, st, self.innermost(I, st, a[0]))
                self.emit(I, st, sink, self.pad_int(tuple(digits), pre if spec[0] & ALT else "", spec, not nonneg))
                return ok(UNIT)
            if seg.startswith("debug_"):
                return self.s_dbg(c, seg)
        if "builders::" in n:
            return self.s_builder(c, seg)
        if seg == "fmt":
            # <X as Trait>::fmt of a foreign type called directly
            m = re.search(r"fmt::(Display|Debug|LowerHex|UpperHex|Octal|Binary)", c.ti or n)
            if m and c.argtys:
                return self.fmt_value(I, st, m.group(1), c.argtys[0], a[0], self.innermost(I, st, a[1]))
        if "core::fmt::Error" in n or seg == "default":
            return NotImplemented
        return NotImplemented

    def s_dbg(self, c, seg):
        I, st, a = c.I, c.st, c.args
        sink = self.innermost(I, st, a[0])
        def txt(x):
            x = I.full(st, x)
            if not is_str(x):
                raise Undecided("debug name")
            return "".join(p if isinstance(p, str) else "?" for p in x[1])
        if seg in ("debug_struct", "debug_tuple"):
            self.emit(I, st, sink, (txt(a[1]),))
            return ("dbg", sink, seg[6:], 0)
        if seg in ("debug_list", "debug_set", "debug_map"):
            self.emit(I, st, sink, ("[" if seg == "debug_list" else "{",))
            return ("dbg", sink, seg[6:], 0)
        m = re.match(r"debug_struct_field(\d)_finish$", seg)
        if m:
            k = int(m.group(1))
            if len(a) == 2 + k:         # names joined by spaces
                ns = txt(a[1]).split(" ")
                if len(ns) != k + 1:
                    raise Undecided("debug names")
                return self.debug_fields(I, st, ns[0], [(ns[i + 1], a[2 + i], None) for i in range(k)], sink, ok(UNIT))
            fields = [(txt(a[2 + 2 * i]), a[3 + 2 * i], None) for i in range(k)]
            return self.debug_fields(I, st, txt(a[1]), fields, sink, ok(UNIT))
        m = re.match(r"debug_tuple_field(\d)_finish$", seg)
        if m:
            fields = [(None, a[2 + i], None) for i in range(int(m.group(1)))]
            return self.debug_fields(I, st, txt(a[1]), fields, sink, ok(UNIT))
        if seg in ("debug_struct_fields_finish", "debug_tuple_fields_finish"):
            st_ = seg.startswith("debug_struct")
            if st_ and len(a) == 3:
                ns = txt(a[1]).split(" ")
                vals = I.full(st, a[2])[1]
                return self.debug_fields(I, st, ns[0], [(x, v, None) for x, v in zip(ns[1:], vals)], sink, ok(UNIT))
            names = [txt(x) for x in I.full(st, a[2])[1]] if st_ else None
            vals = I.full(st, a[3 if st_ else 2])[1]
            fields = [(names[i] if st_ else None, v, None) for i, v in enumerate(vals)]
            return self.debug_fields(I, st, txt(a[1]), fields, sink, ok(UNIT))
        if seg == "debug_c_like_enum_write_str":
            # (f, all names joined by spaces, offset of the name)
            ns, o = txt(a[1]), a[2]
            if type(o) is int:
                self.emit(I, st, sink, (ns[o:].split(" ")[0],))
                return ok(UNIT)
            out, cur = [], [st]
            offs = [i for i in range(len(ns)) if i == 0 or ns[i - 1] == " "]
            for k in offs:
                nxt = []
                for s in cur:
                    y, n_ = I.split(s, eq(o, k, w_of(o)))
                    for q in y:
                        self.emit(I, q, sink, (ns[k:].split(" ")[0],))
                        out.append((q, ok(UNIT)))
                    nxt += n_
                cur = nxt
            if cur:
                raise Undecided(seg)
            return out
        return NotImplemented

    def s_builder(self, c, seg):
        I, st, a = c.I, c.st, c.args
        loc = self.innermost(I, st, a[0]) if a[0][0] == "&m" else None
        b = I.full(st, a[0])
        if istop(b):
            return a[0] if seg != "finish" else ok(UNIT)
        _, sink, kind, n = b
        if seg in ("finish", "finish_non_exhaustive"):
            if seg == "finish_non_exhaustive":
                self.emit(I, st, sink, (", .." if n else " { ..",))
                n = 1
            close = {"struct": " }" if n else "", "tuple": ")" if n else "", "list": "]", "set": "}", "map": "}"}[kind]
            self.emit(I, st, sink, (close,))
            return ok(UNIT)
        if seg in ("field", "entry", "key", "value"):
            vals = a[1:]
            if kind == "struct":
                nm = "".join(p if isinstance(p, str) else "?" for p in I.full(st, a[1])[1])
                self.emit(I, st, sink, ((", " if n else " { ") + nm + ": ",))
                vals = a[2:]
            elif kind == "tuple":
                self.emit(I, st, sink, (", " if n else "(",))
            elif n:
                self.emit(I, st, sink, (", ",))
            cur = [st]
            for v in vals:
                cur = [s2 for s in cur for s2, r in self.fmt_value(I, s, "Debug", None, v, sink)]
            for s in cur:
                I.write(s, loc, ("dbg", sink, kind, n + 1))
            return [(s, a[0]) for s in cur]
        if seg == "entries":
            cur = [(st, n)]
            out = []
            for s, xs in self.items(I, st, self.to_iter(I, st, a[1])):
                cur = [s]
                for i, x in enumerate(xs):
                    for q in cur:
                        if n + i:
                            self.emit(I, q, sink, (", ",))
                    cur = [s2 for q in cur for s2, r in self.fmt_value(I, q, "Debug", None, x, sink)]
                for q in cur:
                    I.write(q, loc, ("dbg", sink, kind, n + len(xs)))
                    out.append((q, a[0]))
            return out
        return NotImplemented

    # ------------------------------------------------------------------ conversions
    def s_from(self, c, tr):
        I, st, a = c.I, c.st, c.args
        dt = c.destty
        t = I.p.types[dt] if dt is not None else None
        v = I.full(st, a[0])
        if tr in ("TryFrom", "TryInto"):
            if t is None or t["k"] != "adt" or t["n"] != RES:
                return NotImplemented
            tgt = t["args"][0]
            tt = I.p.types[tgt]
            isref = tt["k"] == "ref"
            at = I.p.types[tt["t"]] if isref else tt
            if istop(v):
                raise Undecided("conversion: " + str(v[1]))
            if at["k"] == "array" and (is_arr(v)):
                N = at["len"]
                e = ("adt", "core::array::TryFromSliceError", 0, (UNIT,))
                y, no = I.split(st, eq(length(v), N, 64))
                out = [(s, err(e)) for s in no]
                for s in y:
                    els = expand(s.g, v[1])
                    if not sized(els):
                        raise Undecided("array from slice of unknown length")
                    if isref and a[0][0] == "&m":
                        out.append((s, ok(a[0])))
                    else:
                        out.append((s, ok(ref(arr(els)) if isref else arr(els))))
                return out
            if tt["k"] == "int" and (type(v) is int or isT(v, "bv")):
                ft = I.p.types[c.argtys[0]] if c.argtys else None
                if ft is None or ft["k"] not in ("int", "char", "bool"):
                    return NotImplemented
                fw, fs = (ft["w"], ft["s"]) if ft["k"] == "int" else (32, False)
                if fs:
                    if type(v) is not int:
                        raise Undecided("signed conversion")
                    x = v - (1 << fw) if v >> (fw - 1) else v
                    lo, hi = (-(1 << (tt["w"] - 1)), (1 << (tt["w"] - 1)) - 1) if tt["s"] else (0, (1 << tt["w"]) - 1)
                    return ok(x & ((1 << tt["w"]) - 1)) if lo <= x <= hi else err(("adt", "core::num::error::TryFromIntError", 0, (UNIT,)))
                hi = (1 << (tt["w"] - (1 if tt["s"] else 0))) - 1
                y, no = I.split(st, ult(v, hi + 1, fw, st.g) if hi + 1 < 1 << fw else TRUE)
                r = trunc(v, tt["w"]) if tt["w"] <= fw else self.widen(v, tt["w"])
                return [(s, ok(r)) for s in y] + [(s, err(("adt", "core::num::error::TryFromIntError", 0, (UNIT,)))) for s in no]
            if tt["k"] == "char" and (type(v) is int or isT(v, "bv")):
                k = st.g.const(v)
                if k is not None:
                    return ok(k) if k < 0xD800 or 0xE000 <= k < 0x110000 else err(top("char error"))
                if st.g.range(v)[1] < 0xD800:
                    return ok(self.widen(v, 32))
                raise Undecided("char conversion")
            if at["k"] == "adt" and at["n"].endswith("Vec"):
                return ok(v)
            return NotImplemented
        if t is None:
            return NotImplemented
        k = t["k"]
        if k == "int":
            if type(v) is Term and v.op != "bv":
                return mkbv((fb(v),) + (0,) * (t["w"] - 1))
            if type(v) is int or isT(v, "bv"):
                ft = I.p.types[c.argtys[0]] if c.argtys else None
                return I.cast(st, "IntToInt", v, c.argtys[0], dt) if ft is not None and ft["k"] in ("int", "char", "bool") else self.widen(v, t["w"])
            return v if istop(v) else NotImplemented
        if k == "char":
            return self.widen(v, 32) if not istop(v) else v
        if k == "adt":
            n = t["n"]
            if n.endswith("::String"):
                if istop(v) or is_str(v):
                    return v
                if type(v) is int or isT(v, "bv"):
                    return string(self.chpart(st, v))
                if isinstance(v, tuple) and v[0] == "adt" and v[1].endswith("Cow"):
                    return I.full(st, v[3][0])
            if n.endswith("::Vec") or n.endswith("VecDeque"):
                if istop(v) or is_arr(v):
                    return v
                if is_str(v):
                    return arr(str_bytes(v[1]))
            if n == OPT:
                return some(a[0])
            if n.endswith("Zeroizing"):
                return a[0]
            if n.endswith("::Cow"):
                if a[0][0] in ("&", "&m"):
                    return ("adt", "alloc::borrow::Cow", 0, (a[0],))
                return ("adt", "alloc::borrow::Cow", 1, (a[0],))
            if n.endswith("::Box") or n.endswith("Rc") or n.endswith("Arc"):
                inner = I.p.types[t["args"][0]] if t["args"] else None
                if inner is not None and inner["k"] == "dyn":
                    return ("box", ("dyn", c.argtys[0] if c.argtys else None, a[0]))
                return ("box", v) if not is_arr(v) else v
        if k == "array":
            return a[0]
        if k == "ref":
            return a[0]
        return NotImplemented

    # ------------------------------------------------------------------ miscellany
    def s_misc(self, c, seg):
        I, st, a = c.I, c.st, c.args
        n = c.name
        if n.startswith("core::mem::") or n.startswith("core::ptr::"):
            if seg == "replace":
                old = I.full1(st, a[0]) if hasattr(I, "full1") else I.deref(st, a[0])
                I.write(st, a[0], a[1])
                return old
            if seg == "take":
                old = I.deref(st, a[0])
                I.write(st, a[0], self.default(I, c.destty))
                return old
            if seg == "swap":
                x, y = I.deref(st, a[0]), I.deref(st, a[1])
                I.write(st, a[0], y)
                I.write(st, a[1], x)
                return UNIT
            if seg in ("drop", "forget", "drop_in_place"):
                return UNIT
            if seg in ("size_of", "size_of_val"):
                ty = None
                for x in c.targs or []:
                    if isinstance(x, int):
                        ty = x
                return self.sizeof(I, ty)
            if seg in ("read", "read_volatile"):
                return I.deref(st, a[0])
            if seg in ("write", "write_volatile"):
                I.write(st, a[0], a[1])
                return UNIT
            return NotImplemented
        if seg in ("must_use", "black_box", "identity", "assert_unchecked", "likely", "unlikely", "cold_path"):
            return a[0] if a else UNIT
        if seg == "unreachable_unchecked":
            return []
        if seg in ("max", "min") and n.startswith("core::cmp"):
            return self.s_ord(c, seg)
        if n.startswith("core::cmp::Ordering") or "cmp::Ordering" in n:
            v = I.full(st, a[0])
            if isinstance(v, tuple) and v[0] == "adt" and v[1] == ORD:
                k = v[2] - 1
                r = {"is_eq": k == 0, "is_ne": k != 0, "is_lt": k < 0, "is_gt": k > 0, "is_le": k <= 0, "is_ge": k >= 0}
                if seg in r:
                    return TRUE if r[seg] else FALSE
                if seg == "reverse":
                    return ordering(-k)
                if seg == "then":
                    return v if k else a[1]
                if seg == "then_with":
                    return v if k else I.call_value(st, a[1], [])
        if n.startswith("core::array"):
            if seg == "from_fn":
                N = I.p.types[c.destty].get("len") if c.destty is not None else None
                if not isinstance(N, int):
                    return NotImplemented
                cur = [(st, a[0], ())]
                for i in range(N):
                    cur = [(s2, f2, acc + (v,)) for s, f, acc in cur for s2, v, f2 in I.call_fn(s, f, [i])]
                return [(s, arr(acc)) for s, f, acc in cur]
            if seg == "map":
                xs = self.sized_els(I, st, a[0])
                cur = [(st, a[1], ())]
                for x in xs:
                    cur = [(s2, f2, acc + (v,)) for s, f, acc in cur for s2, v, f2 in I.call_fn(s, f, [x])]
                return [(s, arr(acc)) for s, f, acc in cur]
            if seg == "from_ref":
                return ref(arr([I.deref(st, a[0])]))
            return self.s_seq(c, seg)
        if n.startswith("core::slice") and seg == "from_ref":
            return ref(arr([I.deref(st, a[0])]))
        if seg == "is_some_and" or seg == "is_ok_and":
            return NotImplemented
        if n.startswith("core::ops::range") and seg == "contains":
            return self.q_contains(c)
        if n.startswith("core::ops::range"):
            v = I.full(st, a[0])
            if seg == "new":
                return ("adt", "core::ops::range::RangeInclusive", 0, (a[0], a[1], FALSE))
            if seg in ("start", "end"):
                return ref(v[3][0 if seg == "start" else 1])
            if seg == "is_empty":
                return Not(ult(v[3][0], v[3][1], w_of(*v[3][:2]), st.g)) if last_seg(v[1]) == "Range" else NotImplemented
        if "bool" in n and seg in ("then", "then_some"):
            y, no = I.split(st, a[0])
            out = [(s, NONE) for s in no]
            for s in y:
                if seg == "then_some":
                    out.append((s, some(a[1])))
                else:
                    out += [(s2, some(v)) for s2, v in I.call_value(s, a[1], [])]
            return out
        if n.startswith("core::iter") or n.startswith("std::iter"):
            return self.s_iterfn(c, seg)
        return NotImplemented

    def sizeof(self, I, ty):
        if ty is None:
            return top("size_of")
        t = I.p.types[ty]
        if t["k"] == "int":
            return t["w"] // 8
        if t["k"] == "bool":
            return 1
        if t["k"] == "char":
            return 4
        if t["k"] == "array" and isinstance(t.get("len"), int):
            x = self.sizeof(I, t["t"])
            return x if istop(x) else x * t["len"]
        if t["k"] == "adt" and t.get("deep") and len(t["vars"]) == 1 and len(t["vars"][0]["f"]) == 1:
            return self.sizeof(I, t["vars"][0]["f"][0][1])
        return top("size_of " + t["str"])

    # ------------------------------------------------------------------ maps, cells, cows, options
    def s_map(self, c, seg, k, v):
        I, st, a = c.I, c.st, c.args
        if seg in ("new", "with_capacity", "default", "with_capacity_and_hasher", "with_hasher"):
            return ("map", (), ())
        if k == "top":
            return self.top_result(c, v)
        if k != "map":
            return NotImplemented
        if seg == "get":
            return self.map_get(c, v)
        if seg == "contains_key":
            return self.map_get(c, v, "contains")
        if seg == "index":
            return self.map_get(c, v, "index")
        if seg == "insert":
            return self.map_insert(c, v)
        if seg == "len":
            return len(v[1])
        if seg == "is_empty":
            return FALSE if v[1] else TRUE
        if seg in ("reserve", "shrink_to_fit"):
            return UNIT
        if seg in ("iter", "keys", "values"):
            ks = [ref(string(x)) if isinstance(x, str) else ref(x) for x in v[1]]
            if "Hash" in c.name:
                raise Undecided("iteration order of a hash map")
            if seg == "keys":
                return it_list(ks)
            if seg == "values":
                return it_list([ref(x) for x in v[2]])
            return it_list([("tup", (p, ref(q))) for p, q in zip(ks, v[2])])
        return NotImplemented

    def s_cell(self, c, seg):
        I, st, a = c.I, c.st, c.args
        if seg in ("deref", "force", "get") and a:
            v = a[0]
            n = 0
            while isinstance(v, tuple) and v[0] in ("&", "&m") and n < 5:
                v = I.deref(st, v)
                n += 1
            if isinstance(v, tuple) and v[0] == "lazy":
                r = ref(I.force(v[1]))
                return r if seg != "get" else some(r)
        if seg == "get_or_init":
            v = a[0]
            n = 0
            while isinstance(v, tuple) and v[0] in ("&", "&m") and n < 5:
                v = I.deref(st, v)
                n += 1
            if isinstance(v, tuple) and v[0] == "lazy":
                key = ("force", v[1])
                if key not in I.static_cache:
                    nl = len(I.lost)
                    r = I.call_fn(State(Guard(), {}), a[1], [])
                    if len(I.lost) > nl:
                        raise Undecided(I.lost[nl][1])
                    I.static_cache[key] = r[0][1] if len(r) == 1 else top("initialiser of " + v[1])
                return ref(I.static_cache[key])
        return NotImplemented

    def s_cow(self, c, seg):
        I, st, a = c.I, c.st, c.args
        v = I.full(st, a[0]) if a else None
        if isinstance(v, tuple) and v and v[0] == "adt":
            inner = I.full(st, v[3][0])
            if seg in ("into_owned", "to_string", "to_owned"):
                return inner
            if seg in ("as_ref", "deref", "borrow"):
                return ref(inner)
            if seg == "is_borrowed":
                return TRUE if v[2] == 0 else FALSE
        return NotImplemented

    def s_optres(self, c, seg):
        """options and results whose bodies are not in the dump"""
        if c.info and c.info["body"]:
            return NotImplemented
        I, st, a = c.I, c.st, c.args
        v = I.full(st, a[0]) if a else None
        if seg in ("cloned", "copied"):
            if istop(v):
                return v
            if v[1] == OPT and v[2] == 0 or v[1] == RES and v[2] == 1:
                return v
            return [(s, (some if v[1] == OPT else ok)(x)) for s, x in self.clone(I, st, I.deref(st, v[3][0]))]
        if seg in ("iter", "into_iter", "iter_mut"):
            return self.to_iter(I, st, a[0])
        return NotImplemented
