"""Abstract iterators.  An iterator is ('it', kind, ...); next yields [(state, iterator, item|None)]."""
from core import *
from interp import *
from vals import *

ITEND = None


def it_list(items):
    items = tuple(items)
    return ("it", "list", items, 0, len(items))


def last_seg(n):
    return n.rsplit("::", 1)[-1]


def is_range(v):
    return isinstance(v, tuple) and len(v) == 4 and v[0] == "adt" and isinstance(v[1], str) and last_seg(v[1]).startswith("Range")


class Iters:
    # ---------------------------------------------------------------- making iterators
    def to_iter(self, I, st, v, mutable=False):
        if istop(v):
            raise Undecided("iteration over unmodelled value: " + str(v[1]))
        if not isinstance(v, tuple):
            raise Undecided("iteration over a number")
        k = v[0]
        if k == "it":
            return v
        if k == "&m":
            t = I.deref(st, v)
            if is_arr(t):
                if not sized(t[1]):
                    t2 = expand(st.g, t[1])
                    if not sized(t2):
                        raise Undecided("mutable iteration over unsized bytes")
                    t = ("arr", t2)
                    I.write(st, v, t)
                return it_list([("&m", v[1], v[2] + (("i", i),)) for i in range(len(t[1]))])
            if t[0] == "&m":
                return self.to_iter(I, st, t)
            if t[0] == "&":
                return ("it", "byref", v) if self.iterish(I, t[1]) is None else ("it", "byref", v)
            if t[0] == "adt" and t[1] == OPT:
                return it_list([("&m", v[1], v[2] + (0,))] if t[2] == 1 else [])
            return ("it", "byref", v)
        if k == "&":
            t = I.deref(st, v)
            if not isinstance(t, tuple):
                raise Undecided("iteration over a number")
            if is_arr(t):
                return it_list([ref(x) for x in self.elems(st, t)])
            if t[0] == "adt" and t[1] == OPT:
                return it_list([ref(t[3][0])] if t[2] == 1 else [])
            if t[0] in ("&", "&m"):
                return self.to_iter(I, st, t)
            if t[0] == "map":
                return it_list([("tup", (ref(a), ref(b))) for a, b in zip(t[1], t[2])])
            raise Undecided("iteration over &%s" % (t[0],))
        if k == "arr":
            return it_list(self.elems(st, v))
        if k == "box":
            return self.to_iter(I, st, v[1])
        if k == "adt":
            if v[1] == OPT:
                return it_list(v[3] if v[2] == 1 else ())
            if v[1] == RES:
                return it_list(v[3] if v[2] == 0 else ())
            if isinstance(v[1], int) and v[1] < len(I.p.types):
                t = I.p.types[v[1]]
                imp = t.get("impls") or {}
                if not isinstance(imp.get("next"), int) and len(v[3]) == 1:
                    # a wrapper whose IntoIterator is not known here
                    pass
            return v
        if k == "map":
            return it_list([("tup", (a, b)) for a, b in zip(v[1], v[2])])
        if k == "fmtr" or k == "str":
            raise Undecided("iteration over " + k)
        return v

    def iterish(self, I, v):
        return True if isinstance(v, tuple) and v and (v[0] == "it" or is_range(v)) else None

    def elems(self, st, v):
        els = expand(st.g, v[1])
        return els

    # ---------------------------------------------------------------- next
    def inext(self, I, st, it):
        if istop(it):
            raise Undecided("iteration over unmodelled value: " + str(it[1]))
        if it[0] != "it":
            return self.inext_adt(I, st, it)
        k = it[1]
        f = getattr(self, "n_" + k, None)
        if f is None:
            raise Undecided("iterator " + k)
        return f(I, st, it)

    def inext_adt(self, I, st, it):
        if is_range(it):
            n = last_seg(it[1])
            if n == "Range":
                a, b = it[3][0], it[3][1]
                w = w_of(a, b)
                yes, no = I.split(st, ult(a, b, w, st.g))
                out = [(s, ("adt", it[1], it[2], (add(a, 1, w), b)), a) for s in yes]
                return out + [(s, it, None) for s in no]
            if n == "RangeInclusive":
                a, b = it[3][0], it[3][1]
                ex = it[3][2] if len(it[3]) > 2 else FALSE
                w = w_of(a, b)
                yes, no = I.split(st, And(Not(ex), Not(ult(b, a, w, st.g))))
                out = []
                for s in yes:
                    e2, n2 = I.split(s, eq(a, b, w))
                    out += [(x, ("adt", it[1], it[2], (a, b, TRUE)), a) for x in e2]
                    out += [(x, ("adt", it[1], it[2], (add(a, 1, w), b, FALSE)), a) for x in n2]
                return out + [(s, it, None) for s in no]
            if n == "RangeFrom":
                a = it[3][0]
                return [(st, ("adt", it[1], it[2], (add(a, 1, w_of(a)),)), a)]
        if it[0] in ("&", "&m"):
            return self.inext(I, st, self.to_iter(I, st, it))
        if it[0] == "box":
            return [(s, ("box", n), x) for s, n, x in self.inext(I, st, it[1])]
        if it[0] == "adt" and isinstance(it[1], int):
            imp = I.p.types[it[1]].get("impls") or {}
            inst = imp.get("next")
            if isinstance(inst, int) and not isinstance(inst, bool):
                o = I.newtmp(st, it)
                out = []
                for s, v in I.call_inst(inst, [("&m", o, ())], st):
                    n2 = s.mem.pop(o)
                    if istop(v):
                        raise Undecided("next: " + str(v[1]))
                    out.append((s, n2, v[3][0] if v[2] == 1 else None))
                return out
            inner = it[3][0] if it[3] else None
            if inner is not None and (self.iterish(I, inner) or is_arr(inner)):
                return [(s, ("adt", it[1], it[2], (n,) + it[3][1:]), x) for s, n, x in self.inext(I, st, self.to_iter(I, st, inner))]
        raise Undecided("iteration over %s" % (it[0] if it[0] != "adt" else it[1],))

    def n_list(self, I, st, it):
        _, _, items, lo, hi = it
        if lo >= hi:
            return [(st, it, None)]
        x = items[lo]
        if isT(x, "sp") or (isinstance(x, tuple) and x[0] == "&" and isT(x[1], "sp")):
            raise Undecided("iteration over bytes of unknown length")
        return [(st, ("it", "list", items, lo + 1, hi), x)]

    def n_byref(self, I, st, it):
        r = it[2]
        out = []
        inner = I.deref(st, r)
        if inner[0] == "&m":
            return [(s, it, x) for s, _, x in self.n_byref(I, st, ("it", "byref", inner))]
        for s, n, x in self.inext(I, st, inner):
            I.write(s, r, n)
            out.append((s, it, x))
        return out

    def n_map(self, I, st, it):
        out = []
        for s, n, x in self.inext(I, st, it[2]):
            if x is None:
                out.append((s, ("it", "map", n, it[3]), None))
                continue
            for s2, v, f in I.call_fn(s, it[3], [x]):
                out.append((s2, ("it", "map", n, f), v))
        return out

    def n_filter(self, I, st, it, budget=100000):
        out, work = [], [(st, it[2], it[3])]
        while work:
            s, inner, f = work.pop()
            for s1, n, x in self.inext(I, s, inner):
                if x is None:
                    out.append((s1, ("it", "filter", n, f), None))
                    continue
                for s2, c, f2 in I.call_fn(s1, f, [ref(x)]):
                    self.want_bool(c)
                    yes, no = I.split(s2, c)
                    out += [(y, ("it", "filter", n, f2), x) for y in yes]
                    work += [(y, n, f2) for y in no]
            if len(out) + len(work) > 5000:
                raise Undecided("filter splits too much")
        return out

    def n_filter_map(self, I, st, it):
        out, work = [], [(st, it[2], it[3])]
        while work:
            s, inner, f = work.pop()
            for s1, n, x in self.inext(I, s, inner):
                if x is None:
                    out.append((s1, ("it", "filter_map", n, f), None))
                    continue
                for s2, c, f2 in I.call_fn(s1, f, [x]):
                    self.want_adt(c)
                    if c[2] == 1:
                        out.append((s2, ("it", "filter_map", n, f2), c[3][0]))
                    else:
                        work.append((s2, n, f2))
        return out

    def n_map_while(self, I, st, it):
        out = []
        for s, n, x in self.inext(I, st, it[2]):
            if x is None:
                out.append((s, it, None))
                continue
            for s2, c, f in I.call_fn(s, it[3], [x]):
                self.want_adt(c)
                out.append((s2, ("it", "map_while", n, f), c[3][0] if c[2] == 1 else None))
        return out

    def n_enumerate(self, I, st, it):
        out = []
        for s, n, x in self.inext(I, st, it[2]):
            if x is None:
                out.append((s, ("it", "enumerate", n, it[3]), None))
            else:
                out.append((s, ("it", "enumerate", n, it[3] + 1), ("tup", (it[3], x))))
        return out

    def n_zip(self, I, st, it):
        out = []
        for s, n, x in self.inext(I, st, it[2]):
            if x is None:
                out.append((s, ("it", "zip", n, it[3]), None))
                continue
            for s2, m, y in self.inext(I, s, it[3]):
                out.append((s2, ("it", "zip", n, m), None if y is None else ("tup", (x, y))))
        return out

    def n_chain(self, I, st, it):
        out = []
        if it[2] is not None:
            for s, n, x in self.inext(I, st, it[2]):
                if x is None:
                    out += self.n_chain(I, s, ("it", "chain", None, it[3]))
                else:
                    out.append((s, ("it", "chain", n, it[3]), x))
            return out
        for s, n, x in self.inext(I, st, it[3]):
            out.append((s, ("it", "chain", None, n), x))
        return out

    def n_cloned(self, I, st, it):
        out = []
        for s, n, x in self.inext(I, st, it[2]):
            if x is None:
                out.append((s, ("it", "cloned", n), None))
            else:
                for s2, v in self.clone(I, s, I.deref(s, x)):
                    out.append((s2, ("it", "cloned", n), v))
        return out

    def n_take(self, I, st, it):
        n = st.g.const(it[3])
        if n is None:
            # symbolic count
            yes, no = I.split(st, eq(it[3], 0, 64))
            out = [(s, it, None) for s in yes]
            for s in no:
                for s2, m, x in self.inext(I, s, it[2]):
                    out.append((s2, ("it", "take", m, sub(it[3], 1, 64)), x))
            return out
        if n == 0:
            return [(st, it, None)]
        return [(s, ("it", "take", m, n - 1), x) for s, m, x in self.inext(I, st, it[2])]

    def n_skip(self, I, st, it):
        n = st.g.const(it[3])
        if n is None:
            raise Undecided("skip by unknown count")
        cur = [(st, it[2])]
        for _ in range(n):
            nxt, done = [], []
            for s, m in cur:
                for s2, m2, x in self.inext(I, s, m):
                    nxt.append((s2, m2))
            cur = nxt
        out = []
        for s, m in cur:
            out += [(s2, ("it", "skip", m2, 0), x) for s2, m2, x in self.inext(I, s, m)]
        return out

    def n_step_by(self, I, st, it):
        _, _, inner, step, first = it
        cur = [(st, inner)]
        if not first:
            for _ in range(step - 1):
                cur = [(s2, m2) for s, m in cur for s2, m2, x in self.inext(I, s, m)]
        out = []
        for s, m in cur:
            out += [(s2, ("it", "step_by", m2, step, False), x) for s2, m2, x in self.inext(I, s, m)]
        return out

    def n_take_while(self, I, st, it):
        if it[3] is None:
            return [(st, it, None)]
        out = []
        for s, n, x in self.inext(I, st, it[2]):
            if x is None:
                out.append((s, it, None))
                continue
            for s2, c, f in I.call_fn(s, it[3], [ref(x)]):
                self.want_bool(c)
                yes, no = I.split(s2, c)
                out += [(y, ("it", "take_while", n, f), x) for y in yes]
                out += [(y, ("it", "take_while", n, None), None) for y in no]
        return out

    def n_skip_while(self, I, st, it):
        if it[3] is None:
            return [(s, ("it", "skip_while", n, None), x) for s, n, x in self.inext(I, st, it[2])]
        out, work = [], [(st, it[2], it[3])]
        while work:
            s, inner, f = work.pop()
            for s1, n, x in self.inext(I, s, inner):
                if x is None:
                    out.append((s1, it, None))
                    continue
                for s2, c, f2 in I.call_fn(s1, f, [ref(x)]):
                    self.want_bool(c)
                    yes, no = I.split(s2, c)
                    work += [(y, n, f2) for y in yes]
                    out += [(y, ("it", "skip_while", n, None), x) for y in no]
        return out

    def n_flatten(self, I, st, it):
        _, _, outer, f, cur = it
        out = []
        if cur is not None:
            for s, n, x in self.inext(I, st, cur):
                if x is None:
                    out += self.n_flatten(I, s, ("it", "flatten", outer, f, None))
                else:
                    out.append((s, ("it", "flatten", outer, f, n), x))
            return out
        for s, n, x in self.inext(I, st, outer):
            if x is None:
                out.append((s, ("it", "flatten", n, f, None), None))
                continue
            res = [(s, x, f)] if f is None else I.call_fn(s, f, [x])
            for s2, v, f2 in res:
                out += self.n_flatten(I, s2, ("it", "flatten", n, f2, self.to_iter(I, s2, v)))
        return out

    def n_inspect(self, I, st, it):
        out = []
        for s, n, x in self.inext(I, st, it[2]):
            if x is None:
                out.append((s, it, None))
                continue
            for s2, c, f in I.call_fn(s, it[3], [ref(x)]):
                out.append((s2, ("it", "inspect", n, f), x))
        return out

    def n_scan(self, I, st, it):
        _, _, inner, acc, f = it
        out = []
        for s, n, x in self.inext(I, st, inner):
            if x is None:
                out.append((s, it, None))
                continue
            o = I.newtmp(s, acc)
            for s2, c, f2 in I.call_fn(s, f, [("&m", o, ()), x]):
                self.want_adt(c)
                a2 = s2.mem.pop(o)
                out.append((s2, ("it", "scan", n, a2, f2), c[3][0] if c[2] == 1 else None))
        return out

    def n_peekable(self, I, st, it):
        if len(it[3]):
            x = it[3][0]
            return [(st, ("it", "peekable", it[2], ()), x)]
        return [(s, ("it", "peekable", n, ()), x) for s, n, x in self.inext(I, st, it[2])]

    def n_repeat(self, I, st, it):
        return [(s, it, v) for s, v in self.clone(I, st, it[2])]

    def n_cycle(self, I, st, it):
        out = []
        for s, n, x in self.inext(I, st, it[2]):
            if x is None:
                for s2, n2, x2 in self.inext(I, s, it[3]):
                    out.append((s2, ("it", "cycle", n2, it[3]), x2))
            else:
                out.append((s, ("it", "cycle", n, it[3]), x))
        return out

    def n_repeat_with(self, I, st, it):
        return [(s, ("it", "repeat_with", f), v) for s, v, f in I.call_fn(st, it[2], [])]

    def n_from_fn(self, I, st, it):
        out = []
        for s, v, f in I.call_fn(st, it[2], []):
            self.want_adt(v)
            out.append((s, ("it", "from_fn", f), v[3][0] if v[2] == 1 else None))
        return out

    def n_successors(self, I, st, it):
        cur = it[2]
        self.want_adt(cur)
        if cur[2] == 0:
            return [(st, it, None)]
        return [(s, ("it", "successors", v, f), cur[3][0]) for s, v, f in I.call_fn(st, it[3], [ref(cur[3][0])])]

    def n_fuse(self, I, st, it):
        if it[2] is None:
            return [(st, it, None)]
        return [(s, ("it", "fuse", n if x is not None else None), x) for s, n, x in self.inext(I, st, it[2])]

    # characters of a string; opaque parts can only be moved as a whole
    def n_chars(self, I, st, it):
        parts = it[2]
        if not parts:
            return [(st, it, None)]
        p = parts[0]
        if isinstance(p, str):
            return [(st, ("it", "chars", ((p[1:],) if len(p) > 1 else ()) + parts[1:]), ord(p[0]))]
        if p.op == "nib":
            return [(st, ("it", "chars", parts[1:]), tv(T("nibc", p.args[0], p.args[1], w=8), 32))]
        if p.op == "bs" and sized(p.args[0]) and st.g.range(p.args[0][0])[1] < 128:
            b = p.args[0]
            c = b[0] if type(b[0]) is int else mkbv(bits(b[0], 32))
            return [(st, ("it", "chars", bytes_str(b[1:])[1] + parts[1:]), c)]
        raise Undecided("characters of an opaque string")

    def n_char_indices(self, I, st, it):
        out = []
        for s, n, x in self.n_chars(I, st, ("it", "chars", it[2])):
            if x is None:
                out.append((s, it, None))
                continue
            l = 1
            if type(x) is int:
                l = len(chr(x).encode("utf-8"))
            out.append((s, ("it", "char_indices", n[2], it[3] + l), ("tup", (it[3], x))))
        return out

    # pieces of an opaque string
    def n_pieces(self, I, st, it):
        raise Undecided("pieces of an opaque string")

    def n_open(self, I, st, it):
        """known first items of a sequence whose rest is unknown"""
        if it[2]:
            return [(st, ("it", "open", it[2][1:]), it[2][0])]
        raise Undecided("rest of an open sequence")

    def n_lines(self, I, st, it):
        raise Undecided("lines of an opaque string")

    # ---------------------------------------------------------------- reversal
    def rev(self, I, st, it):
        if it[0] != "it":
            if is_range(it):
                n = last_seg(it[1])
                a, b = st.g.const(it[3][0]), st.g.const(it[3][1])
                if a is not None and b is not None:
                    r = range(a, b + 1) if n == "RangeInclusive" else range(a, b)
                    if len(r) <= 70000:
                        return it_list(list(r)[::-1])
            raise Undecided("rev")
        k = it[1]
        if k == "list":
            xs = it[2][it[3]:it[4]]
            return it_list(xs[::-1])
        if k == "map":
            return ("it", "map", self.rev(I, st, it[2]), it[3])
        if k in ("cloned",):
            return ("it", k, self.rev(I, st, it[2]))
        if k == "filter":
            return ("it", k, self.rev(I, st, it[2]), it[3])
        if k == "chain":
            return ("it", "chain", self.rev(I, st, it[3]), self.rev(I, st, it[2]) if it[2] is not None else it_list(()))
        if k == "enumerate" and it[2][0] == "it" and it[2][1] == "list":
            l = it[2]
            xs = [("tup", (it[3] + i, x)) for i, x in enumerate(l[2][l[3]:l[4]])]
            return it_list(xs[::-1])
        if k == "zip":
            xs = self.pure_list(st, it)
            if xs is not None:
                return it_list(xs[::-1])
        if k == "rev":
            return it[2]
        if k == "chars" and all(isinstance(p, str) for p in it[2]):
            return ("it", "chars", tuple(p[::-1] for p in it[2][::-1]))
        if k in ("take", "skip"):
            xs = self.pure_list(st, it)
            if xs is not None:
                return it_list(xs[::-1])
        raise Undecided("rev of " + k)

    def pure_list(self, st, it):
        """items of an iterator built without closures, or None"""
        if it[0] == "adt" and is_range(it):
            a = st.g.const(it[3][0])
            b = st.g.const(it[3][1]) if len(it[3]) > 1 else None
            if a is None or b is None or b - a > 70000:
                return None
            return list(range(a, b + (1 if last_seg(it[1]) == "RangeInclusive" else 0)))
        if it[0] != "it":
            return None
        k = it[1]
        if k == "list":
            return list(it[2][it[3]:it[4]])
        if k == "zip":
            a, b = self.pure_list(st, it[2]), self.pure_list(st, it[3])
            return None if a is None or b is None else [("tup", p) for p in zip(a, b)]
        if k in ("take", "skip"):
            a, n = self.pure_list(st, it[2]), st.g.const(it[3])
            if a is None or n is None:
                return None
            return a[:n] if k == "take" else a[n:]
        if k == "enumerate":
            a = self.pure_list(st, it[2])
            return None if a is None else [("tup", (it[3] + i, x)) for i, x in enumerate(a)]
        if k == "chain":
            a = self.pure_list(st, it[2]) if it[2] is not None else []
            b = self.pure_list(st, it[3])
            return None if a is None or b is None else a + b
        return None

    # ---------------------------------------------------------------- driving
    def drive(self, I, st, it, acc, body):
        """body(state, acc, item) -> [(state, acc, stop)]; returns [(state, acc, iterator)]"""
        cur, done = [(st, it, acc)], []
        n = 0
        while cur:
            n += 1
            if n > 20000:
                raise Undecided("iteration does not end")
            nxt = []
            for s, i, a in cur:
                for s1, i2, x in self.inext(I, s, i):
                    if x is None:
                        done.append((s1, a, i2))
                        continue
                    for s2, a2, stop in body(s1, a, x):
                        (done if stop else nxt).append((s2, a2, i2) if stop else (s2, i2, a2))
            if len(nxt) > 1:
                pend = []
                for s, i, a in nxt:
                    s.mem[("drv", 0)] = (i, a)
                    I.add_state(pend, s)
                nxt = []
                for s in pend:
                    i, a = s.mem.pop(("drv", 0))
                    nxt.append((s, i, a))
                if len(nxt) > 3000:
                    raise Undecided("iteration splits too much")
            cur = nxt
        return done

    def items(self, I, st, it):
        """-> [(state, [items])]"""
        xs = self.pure_list(st, it)
        if xs is not None:
            return [(st, xs)]
        return [(s, list(a)) for s, a, _ in self.drive(I, st, it, (), lambda s, a, x: [(s, a + (x,), False)])]

    def want_bool(self, c):
        if istop(c):
            raise Undecided("condition: " + str(c[1]))

    def want_adt(self, c):
        if istop(c):
            raise Undecided("result: " + str(c[1]))

    # ---------------------------------------------------------------- size
    def size(self, I, st, it):
        """exact number of remaining items if it is known without running anything"""
        xs = self.pure_list(st, it)
        if xs is not None:
            return len(xs)
        if it[0] == "it" and it[1] in ("map", "cloned", "enumerate", "inspect"):
            return self.size(I, st, it[2])
        return None
