"""Abstract meaning of slices, vectors, arrays and maps."""
from core import *
from interp import *
from vals import *
from iters import last_seg, it_list, is_range

ORD = "core::cmp::Ordering"


def ordering(k):
    return ("adt", ORD, k + 1, ())


def asciiterm(t):
    return t.op in ("nib", "dec", "b58c", "b58p", "hexint") or (t.op == "word" and t.args[0] == "en")


class Seq:
    # ------------------------------------------------------------------ helpers
    def need(self, I, st, f, msg):
        yes, no = I.split(st, f)
        for s in no:
            I.panic(s, msg)
        return yes

    def values_of(self, I, st, v, limit=64):
        """[(state, constant)] by case distinction on a symbolic integer"""
        c = st.g.const(v)
        if c is not None:
            return [(st, c)]
        lo, hi = st.g.range(v)
        if hi - lo >= limit:
            raise Undecided("size or index with too many possible values")
        out, cur = [], [st]
        w = w_of(v)
        for k in range(lo, hi + 1):
            nxt = []
            for s in cur:
                y, n = I.split(s, eq(v, k, w))
                out += [(x, k) for x in y]
                nxt += n
            cur = nxt
        return out

    def range_of(self, v, n):
        """(lo, hi exclusive, formulas that must hold) of a range value over length n"""
        k = last_seg(v[1])
        f = v[3]
        if k == "RangeFull":
            return 0, n
        if k == "Range":
            return f[0], f[1]
        if k == "RangeFrom":
            return f[0], n
        if k == "RangeTo":
            return 0, f[0]
        if k == "RangeInclusive":
            return f[0], add(f[1], 1, 64)
        if k == "RangeToInclusive":
            return 0, add(f[0], 1, 64)
        raise Undecided("range " + k)

    def le(self, a, b, g=None):
        return Not(ult(b, a, 64, g))

    def front(self, els, k):
        out = []
        for i, e in enumerate(els):
            if len(out) >= k:
                break
            if isT(e, "sp"):
                x = e.args[0]
                r = k - len(out)
                if i == len(els) - 1 or natural(T("len", x, w=64))[0] >= r:
                    out.extend(byte_terms(x, r))
                    break
                raise Undecided("prefix of bytes of unknown length")
            out.append(e)
        return tuple(out[:k])

    def drop_front(self, els, k):
        els = list(els)
        while k and els:
            e = els[0]
            if isT(e, "sp"):
                x = e.args[0]
                if len(els) == 1 or natural(T("len", x, w=64))[0] >= k:
                    els[0] = T("sp", subterm(x, k, 0))
                    return tuple(els)
                raise Undecided("rest of bytes of unknown length")
            els.pop(0)
            k -= 1
        return tuple(els)

    def drop_back(self, els, k):
        els = list(els)
        while k and els:
            e = els[-1]
            if isT(e, "sp"):
                x = e.args[0]
                if len(els) == 1 or natural(T("len", x, w=64))[0] >= k:
                    els[-1] = T("sp", subterm(x, 0, k))
                    return tuple(els)
                raise Undecided("rest of bytes of unknown length")
            els.pop()
            k -= 1
        return tuple(els)

    def cut(self, I, st, els, lo, hi):
        """elements lo..hi, bounds already established -> [(state, els, (lo, hi) or None)]"""
        els = expand(st.g, els)
        n = len_els(els)
        cl, ch = st.g.const(lo), st.g.const(hi)
        if sized(els):
            if cl == 0 and els and isT(els[0], "bv"):
                r = recover(els[0])
                if r and r[0] == "z" and r[1].op in ("encbyte", "byte") and isT(r[1].args[0], "b58c", "b58p") and hi is len_term(r[1].args[0]):
                    x = r[1].args[0]
                    if all(self.enc_at(e, x, i) for i, e in enumerate(els)):
                        return [(st, (T("sp", x),), None)]
            if cl is not None and ch is not None:
                return [(st, els[cl:ch], (cl, ch))]
            out = []
            for s, a in self.values_of(I, st, lo, len(els) + 2):
                for s2, b in self.values_of(I, s, hi, len(els) + 2):
                    out.append((s2, els[a:b], (a, b)))
            return out
        if hi is n or hi == n:
            if cl is None:
                raise Undecided("symbolic offset into bytes of unknown length")
            return [(st, self.drop_front(els, cl), None)]
        if ch is not None and cl is not None:
            return [(st, self.front(els, ch)[cl:], None)]
        back = st.g.const(sub(n, hi, 64))
        if back is not None and cl is not None:
            return [(st, self.drop_front(self.drop_back(els, back), cl), None)]
        raise Undecided("symbolic slice of bytes of unknown length")

    def enc_at(self, e, x, i):
        if not isT(e, "bv"):
            return False
        r = recover(e)
        return bool(r and r[0] == "z" and r[1].op in ("encbyte", "byte") and r[1].args[0] is x and r[1].args[1] == i)

    def index_arr(self, I, st, r, idx, mut=False, checked=False):
        """r[idx] -> ([(state, reference)], [states out of bounds])"""
        v = I.full(st, r)
        if istop(v) or istop(idx):
            return [(st, ref(top("element of " + str(v[1] if istop(v) else idx[1]))))], []
        if v[0] == "it" and v[1] == "cond":
            raise Undecided("index into filtered list")
        if not is_arr(v):
            raise Undecided("index into " + str(v[0]))
        n = length(v)
        loc = self.innermost(I, st, r) if r[0] == "&m" else None
        if isinstance(idx, tuple) and idx and idx[0] == "adt":
            lo, hi = self.range_of(idx, n)
            yes, no = I.split(st, And(self.le(lo, hi, st.g), self.le(hi, n, st.g)))
            out = []
            for s in yes:
                for s2, els, w in self.cut(I, s, v[1], lo, hi):
                    if loc is not None and w is not None:
                        if els != v[1][w[0]:w[1]]:
                            I.write(s2, loc, ("arr", expand(s2.g, v[1])))
                        out.append((s2, ("&m", loc[1], loc[2] + (("s", w[0], w[1]),))))
                    elif loc is not None and mut:
                        raise Undecided("mutable slice of bytes of unknown length")
                    else:
                        out.append((s2, ref(arr(els))))
            return out, no
        yes, no = I.split(st, ult(idx, n, 64, st.g))
        out = []
        for s in yes:
            els = expand(s.g, v[1])
            c = s.g.const(idx)
            if c is not None:
                if loc is not None and sized(els):
                    if els != v[1]:
                        I.write(s, loc, ("arr", els))
                    out.append((s, ("&m", loc[1], loc[2] + (("i", c),))))
                else:
                    out.append((s, ref(self.front(els, c + 1)[c])))
            elif mut:
                for s2, k in self.values_of(I, s, idx, 300):
                    out.append((s2, ("&m", loc[1], loc[2] + (("i", k),))))
            else:
                x = self.select(I, s, ("arr", els), idx)
                if istop(x):
                    for s2, k in self.values_of(I, s, idx, 300):
                        out.append((s2, ref(els[k])))
                else:
                    out.append((s, ref(x)))
        return out, no

    def select(self, I, st, v, i):
        """element at a symbolic index that is known to be in range"""
        els = expand(st.g, v[1])
        c = st.g.const(i)
        if c is not None:
            return self.front(els, c + 1)[c]
        if not sized(els):
            return top("symbolic index into bytes of unknown length")
        if len(els) > 16 and all(isinstance(e, tuple) and e[0] == "&" and is_str(e[1]) and len(e[1][1]) <= 1 and
                                 all(isinstance(p, str) for p in e[1][1]) for e in els):
            key = self.table_of(els)
            if len(els) <= 2048:
                return ref(string(T("word", key, trunc(i, 11))))
            return top("symbolic index into a large table")
        if len(els) == 16 and all(type(e) is int for e in els):
            for up, d in ((False, b"0123456789abcdef"), (True, b"0123456789ABCDEF")):
                if tuple(d) == els:
                    return tv(T("nibc", trunc(i, 4), up, w=8))
        if len(els) <= 64 and all(type(e) is int or isT(e, "bv") for e in els):
            w = max([w_of(e) if type(e) is Term else max(e.bit_length(), 1) for e in els])
            w = max(w, 8)
            lo, hi = st.g.range(i)
            res = [[] for _ in range(w)]
            for k in range(lo, min(hi + 1, len(els))):
                f = eq(i, k, w_of(i))
                for j, b in enumerate(bits(els[k], w)):
                    res[j].append(And(f, ff(b)))
            return mkbv(tuple(fb(Or(*r)) for r in res))
        return top("symbolic index")

    def table_of(self, els):
        key = self._tabs.get(id(els))
        if key is None or key[0] is not els:
            key = (els, table_key(e[1][1][0] if e[1][1] else "" for e in els))
            self._tabs[id(els)] = key
        return key[1]

    def is_table(self, els):
        return len(els) > 64 and all(isinstance(e, tuple) and e[0] == "&" and is_str(e[1]) and len(e[1][1]) <= 1 and
                                     all(isinstance(p, str) for p in e[1][1]) for e in els)

    def els_of(self, I, st, r):
        v = I.full(st, r)
        if istop(v):
            raise Undecided("elements: " + str(v[1]))
        if is_str(v):
            return expand(st.g, str_bytes(v[1]))
        if not is_arr(v):
            raise Undecided("elements of " + str(v[0]))
        return expand(st.g, v[1])

    def sized_els(self, I, st, r):
        e = self.els_of(I, st, r)
        if not sized(e):
            raise Undecided("bytes of unknown length")
        return e

    def write_slice(self, I, st, r, new):
        """overwrite a whole mutable slice"""
        I.write(st, self.innermost(I, st, r) if r[0] == "&m" else r, arr(new))

    # ------------------------------------------------------------------ slices, vectors and arrays
    def s_seq(self, c, seg):
        I, st, a = c.I, c.st, c.args
        f = getattr(self, "q_" + seg, None)
        if f is not None:
            return f(c)
        g = self.SEQ_ALIAS.get(seg)
        if g:
            return getattr(self, "q_" + g)(c)
        return NotImplemented

    def q_ascii_case(self, c, low):
        from strm import seq_case
        return seq_case(expand(c.st.g, self.els_of(c.I, c.st, c.args[0])), low)

    def q_to_ascii_lowercase(self, c):
        return self.q_ascii_case(c, True)

    def q_to_ascii_uppercase(self, c):
        return self.q_ascii_case(c, False)

    def q_make_ascii_lowercase(self, c):
        c.I.write(c.st, self.innermost(c.I, c.st, c.args[0]), self.q_ascii_case(c, True))
        return UNIT

    def q_make_ascii_uppercase(self, c):
        c.I.write(c.st, self.innermost(c.I, c.st, c.args[0]), self.q_ascii_case(c, False))
        return UNIT

    def q_eq_ignore_ascii_case(self, c):
        from strm import seq_case
        a, b = (seq_case(expand(c.st.g, self.els_of(c.I, c.st, x)), True)[1] for x in c.args[:2])
        return els_eq(a, b)

    SEQ_ALIAS = {"as_slice": "same", "as_mut_slice": "same", "deref": "same", "deref_mut": "same", "as_ref": "same", "as_mut": "same", "borrow": "same",
                 "borrow_mut": "same", "into_boxed_slice": "same", "leak": "same", "as_bytes": "same", "into_vec": "same", "each_ref": "same",
                 "to_owned": "to_vec", "shrink_to_fit": "unit", "reserve": "unit", "reserve_exact": "unit", "as_bytes_mut": "same",
                 "iter_mut": "iter", "sort_unstable": "sort", "clone_from_slice": "copy_from_slice"}

    def q_same(self, c):
        return c.args[0]

    def q_unit(self, c):
        return UNIT

    def q_len(self, c):
        v = c.I.full(c.st, c.args[0])
        return self.vlen(v)

    def vlen(self, v):
        if isinstance(v, tuple) and v and v[0] == "map":
            return len(v[1])
        return length(v)

    def q_is_empty(self, c):
        n = self.q_len(c)
        return n if istop(n) else eq(n, 0, 64)

    def q_new(self, c):
        return arr(())

    def q_with_capacity(self, c):
        return arr(())

    def q_capacity(self, c):
        return top("capacity")

    def q_from_elem(self, c):
        n = c.st.g.const(c.args[1]) if not istop(c.args[1]) else None
        out = []
        cases = [(c.st, n)] if n is not None else self.values_of(c.I, c.st, c.args[1])
        for s, k in cases:
            if k > 100000:
                raise Undecided("very large vector")
            out.append((s, arr((c.args[0],) * k)))
        return out

    def q_to_vec(self, c):
        v = c.I.full(c.st, c.args[0])
        if istop(v):
            return v
        return self.clone(c.I, c.st, ("arr", tuple(v[1]))) if is_arr(v) else NotImplemented

    def q_iter(self, c):
        return self.to_iter(c.I, c.st, c.args[0])

    def q_index(self, c, mut=False):
        ok_, bad = self.index_arr(c.I, c.st, c.args[0], c.args[1], mut)
        for s in bad:
            c.I.panic(s, "index out of range")
        return ok_

    def q_index_mut(self, c):
        return self.q_index(c, True)

    def q_get(self, c, mut=False):
        v = c.I.full(c.st, c.args[0])
        if isinstance(v, tuple) and v and v[0] == "map":
            return self.map_get(c, v)
        ok_, bad = self.index_arr(c.I, c.st, c.args[0], c.args[1], mut)
        return [(s, some(r)) for s, r in ok_] + [(s, NONE) for s in bad]

    def q_get_mut(self, c):
        return self.q_get(c, True)

    def q_get_unchecked(self, c):
        return self.q_index(c)

    def rng_adt(self, kind, *f):
        return ("adt", "core::ops::range::" + kind, 0, tuple(f))

    def q_split_at(self, c, checked=False, mut=False):
        I, st, a = c.I, c.st, c.args
        v = I.full(st, a[0])
        if istop(v) or istop(a[1]):
            return ("tup", (ref(top("part")), ref(top("part"))))
        n = length(v)
        out = []
        yes, no = I.split(st, self.le(a[1], n, st.g))
        for s in no:
            if checked:
                out.append((s, NONE))
            else:
                I.panic(s, "split_at: mid > len")
        for s in yes:
            l, _ = self.index_arr(I, s, a[0], self.rng_adt("RangeTo", a[1]))
            for s2, x in l:
                r, _ = self.index_arr(I, s2, a[0], self.rng_adt("RangeFrom", a[1]))
                for s3, y in r:
                    p = ("tup", (x, y))
                    out.append((s3, some(p) if checked else p))
        return out

    def q_split_at_mut(self, c):
        return self.q_split_at(c)

    def q_split_at_checked(self, c):
        return self.q_split_at(c, True)

    def q_split_first(self, c, last=False):
        I, st, a = c.I, c.st, c.args
        v = I.full(st, a[0])
        n = length(v)
        yes, no = I.split(st, eq(n, 0, 64))
        out = [(s, NONE) for s in yes]
        for s in no:
            e = self.els_of(I, s, a[0])
            if a[0][0] == "&m" and sized(e):
                L = self.innermost(I, s, a[0])
                k = len(e)
                p = (("&m", L[1], L[2] + (("i", k - 1 if last else 0),)), ("&m", L[1], L[2] + (("s", 0, k - 1) if last else ("s", 1, k),)))
            elif last:
                if isT(e[-1], "sp"):
                    raise Undecided("last of unknown length")
                p = (ref(e[-1]), ref(arr(e[:-1])))
            else:
                p = (ref(self.front(e, 1)[0]), ref(arr(self.drop_front(e, 1))))
            out.append((s, some(("tup", p))))
        return out

    def q_split_last(self, c):
        return self.q_split_first(c, True)

    def q_split_first_chunk(self, c):
        return self.chunk_n(c, True, "both")

    def q_first_chunk(self, c):
        return self.chunk_n(c, True, "chunk")

    def q_last_chunk(self, c):
        return self.chunk_n(c, False, "chunk")

    def chunk_n(self, c, first, what):
        I, st, a = c.I, c.st, c.args
        N = self.const_arg(c)
        if N is None:
            return NotImplemented
        v = I.full(st, a[0])
        n = length(v)
        yes, no = I.split(st, self.le(N, n, st.g))
        out = [(s, NONE) for s in no]
        for s in yes:
            e = self.els_of(I, s, a[0])
            if first:
                h, t = self.front(e, N), self.drop_front(e, N)
            else:
                if not sized(e):
                    raise Undecided("last chunk of unknown length")
                h, t = e[len(e) - N:], e[:len(e) - N]
            out.append((s, some(("tup", (ref(arr(h)), ref(arr(t)))) if what == "both" else ref(arr(h)))))
        return out

    def const_arg(self, c):
        """a const generic argument of the callee, from its result type"""
        import re
        if c.destty is None:
            return None
        m = re.findall(r"\[[^\[\];]+; (\d+)\]", c.I.p.tstr(c.destty))
        return int(m[0]) if m else None

    def q_first(self, c, last=False):
        I, st, a = c.I, c.st, c.args
        v = I.full(st, a[0])
        if istop(v):
            raise Undecided("first of " + str(v[1]))
        yes, no = I.split(st, eq(length(v), 0, 64))
        out = [(s, NONE) for s in yes]
        for s in no:
            e = self.els_of(I, s, a[0])
            if a[0][0] == "&m" and sized(e):
                L = self.innermost(I, s, a[0])
                out.append((s, some(("&m", L[1], L[2] + (("i", len(e) - 1 if last else 0),)))))
                continue
            if last and isT(e[-1], "sp"):
                raise Undecided("last byte of unknown length")
            out.append((s, some(ref(e[-1] if last else self.front(e, 1)[0]))))
        return out

    def q_last(self, c):
        return self.q_first(c, True)

    q_first_mut = q_first
    q_last_mut = q_last

    def q_copy_from_slice(self, c):
        I, st, a = c.I, c.st, c.args
        d, s_ = I.full(st, a[0]), I.full(st, a[1])
        if istop(d):
            return UNIT
        if istop(s_):
            if is_arr(d) and sized(d[1]):
                self.write_slice(I, st, a[0], (top(s_[1]),) * len(d[1]))
            return UNIT
        out = []
        for s in self.need(I, st, eq(length(d), length(s_), 64), "source slice length does not match destination"):
            e = self.els_of(I, s, a[1])
            if not sized(e):
                raise Undecided("copy of unknown length")
            self.write_slice(I, s, a[0], e)
            out.append((s, UNIT))
        return out

    def q_copy_within(self, c):
        I, st, a = c.I, c.st, c.args
        e = self.sized_els(I, st, a[0])
        lo, hi = self.range_of(a[1], len(e))
        lo, hi, d = st.g.const(lo), st.g.const(hi), st.g.const(a[2])
        if None in (lo, hi, d):
            raise Undecided("copy_within")
        if lo > hi or hi > len(e) or d + hi - lo > len(e):
            I.panic(st, "copy_within out of range")
            return []
        self.write_slice(I, st, a[0], e[:d] + e[lo:hi] + e[d + hi - lo:])
        return UNIT

    def q_fill(self, c):
        I, st, a = c.I, c.st, c.args
        v = I.full(st, a[0])
        if is_arr(v) and sized(v[1]):
            self.write_slice(I, st, a[0], (a[1],) * len(v[1]))
        else:
            I.write(st, a[0], top("fill"))
        return UNIT

    def q_swap(self, c):
        I, st, a = c.I, c.st, c.args
        e = list(self.sized_els(I, st, a[0]))
        i, j = st.g.const(a[1]), st.g.const(a[2])
        if i is None or j is None:
            raise Undecided("swap at symbolic index")
        if max(i, j) >= len(e):
            I.panic(st, "index out of range")
            return []
        e[i], e[j] = e[j], e[i]
        self.write_slice(I, st, a[0], e)
        return UNIT

    def q_reverse(self, c):
        e = self.sized_els(c.I, c.st, c.args[0])
        self.write_slice(c.I, c.st, c.args[0], e[::-1])
        return UNIT

    def q_rotate_left(self, c):
        e = self.sized_els(c.I, c.st, c.args[0])
        k = c.st.g.const(c.args[1])
        if k is None:
            raise Undecided("rotate")
        if k > len(e):
            c.I.panic(c.st, "rotate beyond length")
            return []
        self.write_slice(c.I, c.st, c.args[0], e[k:] + e[:k])
        return UNIT

    def q_rotate_right(self, c):
        e = self.sized_els(c.I, c.st, c.args[0])
        k = c.st.g.const(c.args[1])
        if k is None:
            raise Undecided("rotate")
        if k > len(e):
            c.I.panic(c.st, "rotate beyond length")
            return []
        k = len(e) - k
        self.write_slice(c.I, c.st, c.args[0], e[k:] + e[:k])
        return UNIT

    # vectors
    def upd(self, c, fn):
        I, st = c.I, c.st
        v = I.full(st, c.args[0])
        if istop(v):
            return
        if not is_arr(v):
            raise Undecided("vector operation on " + str(v[0]))
        I.write(st, self.innermost(I, st, c.args[0]), arr(fn(tuple(v[1]))))

    def q_push(self, c):
        self.upd(c, lambda e: e + (c.args[1],))
        return UNIT

    def q_pop(self, c):
        I, st = c.I, c.st
        e = self.els_of(I, st, c.args[0])
        if not e:
            return NONE
        if isT(e[-1], "sp"):
            raise Undecided("pop of unknown length")
        I.write(st, self.innermost(I, st, c.args[0]), arr(e[:-1]))
        return some(e[-1])

    def q_clear(self, c):
        self.upd(c, lambda e: ())
        return UNIT

    def q_truncate(self, c):
        I, st, a = c.I, c.st, c.args
        v = I.full(st, a[0])
        if istop(v):
            return UNIT
        n = length(v)
        yes, no = I.split(st, ult(a[1], n, 64, st.g))
        out = [(s, UNIT) for s in no]
        for s in yes:
            for s2, e, _ in self.cut(I, s, v[1], 0, a[1]):
                I.write(s2, self.innermost(I, s2, a[0]), arr(e))
                out.append((s2, UNIT))
        return out

    def q_resize(self, c):
        I, st, a = c.I, c.st, c.args
        out = []
        for s, k in self.values_of(I, st, a[1], 300):
            e = self.sized_els(I, s, a[0])
            I.write(s, self.innermost(I, s, a[0]), arr(e[:k] + (a[2],) * (k - len(e))))
            out.append((s, UNIT))
        return out

    def q_extend_from_slice(self, c):
        v = c.I.full(c.st, c.args[1])
        if istop(v):
            c.I.write(c.st, self.innermost(c.I, c.st, c.args[0]), top(v[1]))
            return UNIT
        e = self.els_of(c.I, c.st, c.args[1])
        self.upd(c, lambda d: d + tuple(e))
        return UNIT

    def q_append(self, c):
        e = self.els_of(c.I, c.st, c.args[1])
        self.upd(c, lambda d: d + tuple(e))
        c.I.write(c.st, self.innermost(c.I, c.st, c.args[1]), arr(()))
        return UNIT

    def q_extend(self, c):
        I, st, a = c.I, c.st, c.args
        out = []
        src = a[1]
        v = I.full(st, src)
        if is_arr(v) and not sized(expand(st.g, v[1])):
            self.upd(c, lambda d: d + tuple(v[1]))
            return UNIT
        for s, xs in self.items(I, st, self.to_iter(I, st, src)):
            d = I.full(s, a[0])
            if istop(d):
                out.append((s, UNIT))
                continue
            byval = [self.strip1(I, s, x, d) for x in xs]
            I.write(s, self.innermost(I, s, a[0]), arr(tuple(d[1]) + tuple(byval)))
            out.append((s, UNIT))
        return out

    def strip1(self, I, s, x, d):
        """Extend<&T> copies"""
        return x

    def q_insert(self, c):
        I, st, a = c.I, c.st, c.args
        v = I.full(st, a[0])
        if isinstance(v, tuple) and v and v[0] == "map":
            return self.map_insert(c, v)
        e = self.els_of(I, st, a[0])
        k = st.g.const(a[1])
        if k is None:
            raise Undecided("insert at symbolic position")
        if k > len(e) and sized(e):
            I.panic(st, "insert out of range")
            return []
        h = self.front(e, k) if not sized(e) else e[:k]
        t = self.drop_front(e, k)
        I.write(st, self.innermost(I, st, a[0]), arr(h + (a[2],) + t))
        return UNIT

    def q_remove(self, c, swap=False):
        I, st, a = c.I, c.st, c.args
        e = self.sized_els(I, st, a[0])
        k = st.g.const(a[1])
        if k is None:
            raise Undecided("remove at symbolic position")
        if k >= len(e):
            I.panic(st, "remove out of range")
            return []
        if swap:
            n = e[:k] + (e[-1],) + e[k + 1:-1] if k < len(e) - 1 else e[:-1]
        else:
            n = e[:k] + e[k + 1:]
        I.write(st, self.innermost(I, st, a[0]), arr(n))
        return e[k]

    def q_swap_remove(self, c):
        return self.q_remove(c, True)

    def q_split_off(self, c):
        I, st, a = c.I, c.st, c.args
        v = I.full(st, a[0])
        out = []
        for s in self.need(I, st, self.le(a[1], length(v), st.g), "split_off out of range"):
            for s2, t, _ in self.cut(I, s, v[1], a[1], length(v)):
                for s3, h, _ in self.cut(I, s2, v[1], 0, a[1]):
                    I.write(s3, self.innermost(I, s3, a[0]), arr(h))
                    out.append((s3, arr(t)))
        return out

    def q_drain(self, c):
        I, st, a = c.I, c.st, c.args
        e = self.sized_els(I, st, a[0])
        lo, hi = self.range_of(a[1], len(e))
        lo, hi = st.g.const(lo), st.g.const(hi)
        if lo is None or hi is None:
            raise Undecided("drain of symbolic range")
        if lo > hi or hi > len(e):
            I.panic(st, "drain out of range")
            return []
        I.write(st, self.innermost(I, st, a[0]), arr(e[:lo] + e[hi:]))
        return it_list(e[lo:hi])

    def q_retain(self, c):
        I, st, a = c.I, c.st, c.args
        e = self.sized_els(I, st, a[0])

        def body(s, acc, x):
            out = []
            for s2, f, _ in I.call_fn(s, a[1], [ref(x)]):
                self.want_bool(f)
                y, n = I.split(s2, f)
                out += [(q, acc + (x,), False) for q in y] + [(q, acc, False) for q in n]
            return out
        out = []
        for s, acc, _ in self.drive(I, st, it_list(e), (), body):
            I.write(s, self.innermost(I, s, a[0]), arr(acc))
            out.append((s, UNIT))
        return out

    def q_dedup(self, c):
        return NotImplemented

    # chunks
    def q_chunks(self, c, exact=False, mut=False):
        I, st, a = c.I, c.st, c.args
        k = st.g.const(a[1])
        if k is None:
            raise Undecided("chunk size")
        if k == 0:
            I.panic(st, "chunk size must be non-zero")
            return []
        e = self.sized_els(I, st, a[0])
        n = len(e) // k * k if exact else len(e)
        items = []
        L = self.innermost(I, st, a[0]) if a[0][0] == "&m" else None
        for i in range(0, n, k):
            hi = min(i + k, len(e))
            items.append(("&m", L[1], L[2] + (("s", i, hi),)) if L else ref(arr(e[i:hi])))
        return it_list(items)

    def q_chunks_exact(self, c):
        return self.q_chunks(c, True)

    q_chunks_mut = q_chunks
    q_chunks_exact_mut = q_chunks_exact

    def q_rchunks(self, c):
        I, st, a = c.I, c.st, c.args
        k = st.g.const(a[1])
        e = self.sized_els(I, st, a[0])
        if not k:
            raise Undecided("chunk size")
        return it_list([ref(arr(e[max(0, j - k):j])) for j in range(len(e), 0, -k)])

    def q_as_chunks(self, c):
        import re
        m = re.findall(r"\[[^\[\];]+; (\d+)\]", c.I.p.tstr(c.destty)) if c.destty is not None else None
        if not m:
            return NotImplemented
        k = int(m[0])
        e = self.sized_els(c.I, c.st, c.args[0])
        n = len(e) // k * k
        return ("tup", (ref(arr([arr(e[i:i + k]) for i in range(0, n, k)])), ref(arr(e[n:]))))

    def q_windows(self, c):
        k = c.st.g.const(c.args[1])
        e = self.sized_els(c.I, c.st, c.args[0])
        if not k:
            raise Undecided("window size")
        return it_list([ref(arr(e[i:i + k])) for i in range(len(e) - k + 1)])

    # joining
    def q_concat(self, c, sep=None):
        I, st, a = c.I, c.st, c.args
        e = self.sized_els(I, st, a[0])
        vs = [I.full(st, x) for x in e]
        t = [v for v in vs if istop(v)]
        if t:
            return t[0]
        sv = I.full(st, sep) if sep is not None else None
        isstr = all(is_str(v) for v in vs) and (vs or (c.destty is not None and "String" in I.p.tstr(c.destty)))
        if isstr:
            parts = []
            for i, v in enumerate(vs):
                if i and sv is not None:
                    parts += list(sv[1])
                parts += list(v[1])
            return string(*parts)
        els = ()
        for i, v in enumerate(vs):
            if i and sv is not None:
                els += tuple(sv[1]) if is_arr(sv) else (sv,)
            els += tuple(v[1])
        return arr(els)

    def q_join(self, c):
        return self.q_concat(c, c.args[1])

    def q_repeat(self, c):
        k = c.st.g.const(c.args[1])
        v = c.I.full(c.st, c.args[0])
        if k is None:
            raise Undecided("repeat")
        return string(*(v[1] * k)) if is_str(v) else arr(v[1] * k)

    # searching
    def q_contains(self, c):
        I, st, a = c.I, c.st, c.args
        v = I.full(st, a[0])
        if istop(v):
            return v
        if isinstance(v, tuple) and v[0] == "adt" and is_range(v):
            x = I.full(st, a[1])
            k, f = last_seg(v[1]), v[3]
            fs = [I.full(st, q) for q in f]
            if any(istop(q) for q in fs) or istop(x):
                return top("range contains")
            if k == "Range":
                return And(self.leq(fs[0], x, st.g), self.ltq(x, fs[1], st.g))
            if k == "RangeInclusive":
                return And(self.leq(fs[0], x, st.g), self.leq(x, fs[1], st.g))
            if k == "RangeFrom":
                return self.leq(fs[0], x, st.g)
            if k == "RangeTo":
                return self.ltq(x, fs[0], st.g)
            if k == "RangeToInclusive":
                return self.leq(x, fs[0], st.g)
        if is_str(v):
            return self.str_contains(c)
        e = self.sized_els(I, st, a[0])
        x = I.full(st, a[1])
        if istop(x):
            return x
        if self.is_table(e) and is_str(x):
            return in_list(self.table_of(v[1]), skey(x[1]))[0]
        cur = [(st, FALSE)]
        for y in e:
            nxt = []
            for s, f in cur:
                for s2, g in self.eqv(I, s, y, x):
                    if istop(g):
                        raise Undecided("contains: " + str(g[1]))
                    nxt.append((s2, Or(f, g)))
            cur = nxt
        return cur

    def leq(self, a, b, g):
        return Not(self.ltq(b, a, g))

    def ltq(self, a, b, g):
        return ult(a, b, max(w_of(a), w_of(b)) if type(a) is Term or type(b) is Term else 64, g)

    def q_starts_with(self, c, end=False):
        I, st, a = c.I, c.st, c.args
        v = I.full(st, a[0])
        if is_str(v):
            return self.str_starts(c, end)
        e, n = self.els_of(I, st, a[0]), self.els_of(I, st, a[1])
        if not sized(n):
            raise Undecided("prefix of unknown length")
        k = len(n)
        if sized(e):
            if k > len(e):
                return FALSE
            return els_eq(e[len(e) - k:] if end else e[:k], n)
        if end:
            raise Undecided("ends_with on unknown length")
        return And(self.le(k, len_els(e), st.g), els_eq(self.front(e, k), n))

    def q_ends_with(self, c):
        return self.q_starts_with(c, True)

    def q_strip_prefix(self, c):
        I, st, a = c.I, c.st, c.args
        v = I.full(st, a[0])
        if is_str(v):
            return self.str_strip(c, False)
        f = self.q_starts_with(c)
        k = len(self.els_of(I, st, a[1]))
        y, n = I.split(st, f)
        return [(s, some(ref(arr(self.drop_front(self.els_of(I, s, a[0]), k))))) for s in y] + [(s, NONE) for s in n]

    def q_strip_suffix(self, c):
        v = c.I.full(c.st, c.args[0])
        if is_str(v):
            return self.str_strip(c, True)
        f = self.q_ends_with(c)
        k = len(self.els_of(c.I, c.st, c.args[1]))
        y, n = c.I.split(c.st, f)
        return [(s, some(ref(arr(self.drop_back(self.els_of(c.I, s, c.args[0]), k))))) for s in y] + [(s, NONE) for s in n]

    def q_binary_search(self, c):
        I, st, a = c.I, c.st, c.args
        e = self.sized_els(I, st, a[0])
        x = I.full(st, a[1])
        if self.is_table(e) and is_str(x):
            words = [w[1][1][0] for w in e]
            if words != sorted(words, key=lambda w: w.encode()):
                raise Undecided("binary search over an unsorted table")
            f, idx = in_list(self.table_of(I.full(st, a[0])[1]), skey(x[1]))
            y, n = I.split(st, f)
            return [(s, ok(mkbv(bits(idx, w_of(idx) if type(idx) is Term else 64)[:64] + (0,) * max(0, 64 - (w_of(idx) if type(idx) is Term else 64)))
                           if type(idx) is Term else idx)) for s in y] + [(s, err(top("insertion point"))) for s in n]
        raise Undecided("binary search")

    def q_sort(self, c):
        I, st, a = c.I, c.st, c.args
        e = self.sized_els(I, st, a[0])
        if all(type(x) is int for x in e):
            self.write_slice(I, st, a[0], tuple(sorted(e)))
            return UNIT
        vs = [I.full(st, x) for x in e]
        if all(is_str(v) and all(isinstance(p, str) for p in v[1]) for v in vs):
            o = sorted(range(len(e)), key=lambda i: "".join(vs[i][1]).encode())
            self.write_slice(I, st, a[0], tuple(e[i] for i in o))
            return UNIT
        raise Undecided("sort of symbolic values")

    # ------------------------------------------------------------------ maps
    def map_index(self, v):
        """key -> value position; later entries win"""
        k = id(v)
        r = self._maps.get(k)
        if r is None or r[0] is not v:
            d = {}
            for i, x in enumerate(v[1]):
                d[x] = i
            r = (v, d)
            self._maps[k] = r
        return r[1]

    def map_get(self, c, v, what="get"):
        I, st = c.I, c.st
        x = I.full(st, c.args[1])
        if istop(x):
            raise Undecided("map key: " + str(x[1]))
        wrap = {"get": lambda q: some(ref(q)), "index": ref, "contains": lambda q: TRUE}[what]

        def miss(s):
            if what == "index":
                I.panic(s, "map key not found")
                return []
            return [(s, NONE if what == "get" else FALSE)]
        keys = v[1]
        if is_str(x) and all(isinstance(k, str) for k in keys):
            key = skey(x[1])
            if isinstance(key, str):
                i = self.map_index(v).get(key)
                return miss(st) if i is None else [(st, wrap(v[2][i]))]
            if len(keys) <= 16:
                out, cur = [], [st]
                for k, i in self.map_index(v).items():
                    nxt = []
                    for s in cur:
                        y, n = I.split(s, streq_const(key, k))
                        out += [(q, wrap(v[2][i])) for q in y]
                        nxt += n
                    cur = nxt
                for s in cur:
                    out += miss(s)
                return out
            tk = table_key(keys)
            vals = v[2]
            if len(set(keys)) != len(keys):
                raise Undecided("table with repeated words")
            f, idx = in_list(tk, key)
            y, n = I.split(st, f)
            out = []
            for s in y:
                if vals == tuple(range(len(vals))):
                    out.append((s, wrap(self.widen(idx, self.map_w(c)))))
                else:
                    x = top("map value") if type(idx) is Term else vals[idx]
                    if type(idx) is Term and len(vals) <= 4096:
                        x = self.valtab(c.I, tk, vals, idx, self.map_vty(c))
                    out.append((s, wrap(x)))
            for s in n:
                out += miss(s)
            return out
        if type(x) is int or isT(x, "bv"):
            if len(keys) > 64 and type(x) is not int:
                raise Undecided("large map")
            out, cur = [], [st]
            for k, i in self.map_index(v).items():
                nxt = []
                for s in cur:
                    y, n = I.split(s, eq(x, k, max(w_of(x), 1)))
                    out += [(q, wrap(v[2][i])) for q in y]
                    nxt += n
                cur = nxt
            for s in cur:
                out += miss(s)
            return out
        raise Undecided("map lookup")

    def map_vty(self, c):
        """type id of the map's values"""
        t = c.argtys and c.I.p.types[c.argtys[0]]
        n = 0
        while t and t["k"] in ("ref", "ptr") and n < 3:
            t = c.I.p.types[t["t"]]
            n += 1
        if t and t["k"] == "adt" and len(t["args"]) > 1:
            return t["args"][1]
        return None

    def map_w(self, c):
        """width of the map's value type when it is an integer"""
        t = self.map_vty(c)
        return c.I.width(t)[0] if t is not None else 64

    def widen(self, v, w):
        if type(v) is int:
            return v
        return mkbv((bits(v, w_of(v)) + (0,) * w)[:w])

    def valtab(self, I, tk, vals, idx, ty):
        """value stored for the word at a symbolic table position"""
        p = I.p
        if all(type(x) is int for x in vals):
            w = p.types[ty].get("w") if ty is not None else None
            if not w:
                return top("map value")
            d = {(x - i) & ((1 << w) - 1) for i, x in enumerate(vals)}
            if len(d) == 1:
                return add(self.widen(idx, w), d.pop(), w)
            return tv(T("tabval", tuple(vals), idx, w=w))
        v0 = vals[0]
        if not isinstance(v0, tuple) or any(not isinstance(x, tuple) or len(x) != len(v0) or x[0] != v0[0] for x in vals):
            return top("map value")
        if v0[0] == "adt" and all(x[1:3] == v0[1:3] and len(x[3]) == len(v0[3]) for x in vals):
            if not isinstance(v0[1], int):
                return top("map value")
            fts = [f[1] for f in p.types[v0[1]]["vars"][v0[2]]["f"]]
            return ("adt", v0[1], v0[2], tuple(self.valtab(I, tk, tuple(x[3][j] for x in vals), idx, fts[j]) for j in range(len(v0[3]))))
        if v0[0] == "tup" and ty is not None and all(len(x[1]) == len(v0[1]) for x in vals):
            ts = p.types[ty].get("ts") or [None] * len(v0[1])
            return ("tup", tuple(self.valtab(I, tk, tuple(x[1][j] for x in vals), idx, ts[j]) for j in range(len(v0[1]))))
        if v0[0] == "&":
            t = p.types[ty].get("t") if ty is not None else None
            return ref(self.valtab(I, tk, tuple(x[1] for x in vals), idx, t))
        if v0[0] == "str" and all(isinstance(p_, str) for x in vals for p_ in x[1]):
            ws = tuple("".join(x[1]) for x in vals)
            if ws == TABLES.get(tk):
                return string(T("word", tk, idx if type(idx) is int else trunc(idx, 11)))
        return top("map value")

    def map_insert(self, c, v):
        I, st, a = c.I, c.st, c.args
        k = I.full(st, a[1])
        if is_str(k):
            k = skey(k[1])
        if not isinstance(k, (str, int)):
            raise Undecided("map insert with symbolic key")
        i = self.map_index(v).get(k)
        loc = self.innermost(I, st, a[0])
        if i is None:
            I.write(st, loc, ("map", v[1] + (k,), v[2] + (a[2],)))
            return NONE
        I.write(st, loc, ("map", v[1], v[2][:i] + (a[2],) + v[2][i + 1:]))
        return some(v[2][i])

    def make_map(self, I, st, pairs):
        ks, vs = [], []
        for p in pairs:
            if istop(p) or p[0] != "tup":
                raise Undecided("map of unmodelled pairs")
            k = I.full(st, p[1][0])
            if is_str(k):
                k = skey(k[1])
            if not isinstance(k, (str, int)):
                raise Undecided("map with symbolic keys")
            ks.append(k)
            vs.append(p[1][1])
        if len(set(ks)) != len(ks):
            d = {}
            for k, v in zip(ks, vs):
                d[k] = v
            ks, vs = list(d), list(d.values())
        return ("map", tuple(ks), tuple(vs))
