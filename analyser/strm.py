"""Abstract meaning of str, String and char operations."""
import unicodedata

from core import *
from interp import *
from vals import *
from iters import last_seg, it_list
from seqm import asciiterm



def free_of(t, chars):
    """no character of `chars` occurs in what the term denotes"""
    if t.op in ("nib",):
        return not set(chars) & set("0123456789abcdefABCDEF")
    if t.op == "dec":
        return not set(chars) & set("0123456789")
    if t.op in ("b58c", "b58p"):
        return not set(chars) & set(B58)
    if t.op == "word":
        return not any(set(chars) & set(w) for w in TABLES[t.args[0]])
    if t.op == "wsword":
        return all(c in WS for c in chars)
    if t.op == "elt":
        return all(c == "/" for c in chars)
    if t.op in ("nfkd", "nfc", "nfd", "nfkc", "sub", "aslower", "asupper", "ulower", "uupper"):
        x = t.args[0]
        return isT(x) and free_of(x, chars) and all(c in WS or c == "/" for c in chars)
    return False


def byte_case(x, low, w):
    """ASCII case of one byte or character"""
    if type(x) is int:
        return x + 32 if low and 65 <= x <= 90 else x - 32 if not low and 97 <= x <= 122 else x
    f = in_val(x, ((65, 90),) if low else ((97, 122),), w)
    b = list(bits(x, w))
    b[5] = fb(Or(ff(b[5]), f)) if low else fb(And(ff(b[5]), Not(f)))
    return mkbv(tuple(b))


def seq_case(els, low):
    out = []
    for e in els:
        if type(e) is int or isT(e, "bv"):
            out.append(byte_case(e, low, 8))
        elif isT(e, "sp"):
            out += Str().casemap(("str", (e.args[0],)), "aslower" if low else "asupper", lower_const if low else upper_const)[1]
        else:
            raise Undecided("ASCII case of " + str(e))
    return arr(str_bytes(tuple(out)) if any(isinstance(x, str) or type(x) is Term and x.op != "bv" and x.op != "sp" for x in out) else out)


class Str:
    def sval(self, I, st, r):
        v = I.full(st, r)
        if istop(v):
            raise Undecided("text: " + str(v[1]))
        if is_str(v):
            return v
        if is_arr(v):
            return bytes_str(expand(st.g, v[1]))
        if isinstance(v, tuple) and v and v[0] == "box":
            return self.sval(I, st, v[1])
        raise Undecided("text of " + str(v[0]))

    def const_str(self, v):
        k = skey(v[1])
        return k if isinstance(k, str) else None

    # ------------------------------------------------------------------ patterns
    def pattern(self, I, st, p):
        """('chars', set) | ('text', str) | ('pred', f) | ('sym', parts)"""
        v = I.full(st, p)
        if type(v) is int:
            return ("chars", chr(v))
        if is_str(v):
            k = self.const_str(v)
            return ("text", k) if k is not None else ("sym", v[1])
        if is_arr(v) and all(type(x) is int for x in v[1]):
            return ("chars", "".join(chr(x) for x in v[1]))
        if isinstance(v, tuple) and v[0] in ("fn", "clo", "fnp", "native"):
            if v[0] == "fn":
                n = I.p.types[v[1]]["n"]
                if last_seg(n) == "is_whitespace":
                    return ("chars", WS)
                if last_seg(n) == "is_ascii_whitespace":
                    return ("chars", "\t\n\x0c\r ")
            return ("pred", v)
        if istop(v):
            raise Undecided("pattern: " + str(v[1]))
        raise Undecided("pattern")

    def pred_set(self, I, st, f, consts):
        """evaluate a character predicate on the given constant characters"""
        out = set()
        for ch in consts:
            r = I.call_fn(st.copy(), f, [ord(ch)])
            if len(r) != 1 or istop(r[0][1]):
                raise Undecided("character predicate")
            e = r[0][0].g.eval(r[0][1])
            if e is None:
                raise Undecided("character predicate")
            if e:
                out.add(ch)
        return out

    def pieces(self, I, st, v, pat, limit=None, rev=False):
        """split a string at a pattern -> list of strings (parts tuples)"""
        parts = string(*bytes_str(str_bytes(v[1]))[1])[1]
        kind, x = pat
        if kind == "sym":
            raise Undecided("split at symbolic text")
        cs = None
        if kind == "pred":
            allc = set("".join(p for p in parts if isinstance(p, str)))
            cs = self.pred_set(I, st, x, allc)
            for p in parts:
                if not isinstance(p, str):
                    # a predicate that holds only of whitespace or '/'
                    probe = [chr(i) for i in range(128)] + [c for c in WS if ord(c) >= 128] + ["\u00e9", "\u4e00"]
                    hit = self.pred_set(I, st, x, probe)
                    if not self.free_all(p, hit):
                        raise Undecided("split of opaque text by predicate")
        elif kind == "chars":
            cs = set(x)
        elif kind == "text" and len(x) == 1:
            cs = set(x)
        if cs is not None:
            for p in parts:
                if not isinstance(p, str) and not self.free_all(p, cs):
                    raise Undecided("split of opaque text")
        elif kind == "text":
            if x == "":
                raise Undecided("split at empty text")
            for p in parts:
                if not isinstance(p, str) and not any(free_of(p, ch) for ch in x):
                    raise Undecided("split of opaque text")
            if any(not isinstance(p, str) for p in parts):
                # separators could straddle a boundary only through characters terms may contain
                if not all(all(free_of(p, ch) for ch in x) for p in parts if not isinstance(p, str)):
                    raise Undecided("split of opaque text")
        out, cur = [], []
        for p in parts:
            if not isinstance(p, str):
                cur.append(p)
                continue
            if cs is not None:
                run = ""
                for ch in p:
                    if ch in cs:
                        out.append(tuple(cur) + ((run,) if run else ()))
                        cur, run = [], ""
                    else:
                        run += ch
                if run:
                    cur.append(run)
            else:
                segs = p.split(x)
                for i, sgm in enumerate(segs):
                    if i:
                        out.append(tuple(cur))
                        cur = []
                    if sgm:
                        cur.append(sgm)
        out.append(tuple(cur))
        if limit is not None and len(out) > limit:
            raise Undecided("limited split")
        return out

    def free_all(self, p, chars):
        return all(free_of(p, ch) for ch in chars)

    def ws_term(self, v):
        k = skey(v[1])
        return k if isT(k, "ws") else None

    def word_items(self, w):
        its = [ref(string(x)) if not isinstance(x, str) else ref(string(x)) for x in w.args[0]]
        return its

    # ------------------------------------------------------------------ dispatcher
    def s_str(self, c, seg):
        f = getattr(self, "t_" + seg, None)
        if f is not None:
            return f(c)
        g = self.STR_ALIAS.get(seg)
        if g == "same":
            return c.args[0]
        if g == "unit":
            return UNIT
        if g == "own":
            v = c.I.full(c.st, c.args[0])
            return v
        if g:
            return getattr(self, "t_" + g)(c)
        return NotImplemented

    STR_ALIAS = {"as_str": "same", "as_mut_str": "same", "deref": "same", "deref_mut": "same", "as_ref": "same", "borrow": "same", "into_boxed_str": "same",
                 "as_mut": "same", "into_string": "same", "borrow_mut": "same",
                 "reserve": "unit", "shrink_to_fit": "unit", "to_owned": "own", "to_string": "own", "clone": "own", "into_owned": "own",
                 "into_bytes": "as_bytes", "trim_left": "trim_start", "trim_right": "trim_end"}

    def t_new(self, c):
        return ("str", ())

    t_with_capacity = t_new

    def t_len(self, c):
        v = c.I.full(c.st, c.args[0])
        return length(v)

    def t_is_empty(self, c):
        v = c.I.full(c.st, c.args[0])
        if is_str(v) and len(v[1]) == 1 and isT(v[1][0], "pick"):
            return str_eq(v[1], ())
        n = self.t_len(c)
        return n if istop(n) else eq(n, 0, 64)

    def t_as_bytes(self, c):
        v = c.I.full(c.st, c.args[0])
        if istop(v):
            return ref(v)
        r = arr(str_bytes(v[1]))
        return ref(r) if c.args[0][0] in ("&", "&m") else r

    def t_bytes(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        return it_list(expand(c.st.g, str_bytes(v[1])))

    def t_chars(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        return ("it", "chars", v[1])

    def t_char_indices(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        return ("it", "char_indices", v[1], 0)

    def t_push_str(self, c):
        v = c.I.full(c.st, c.args[1])
        loc = self.innermost(c.I, c.st, c.args[0])
        d = c.I.full(c.st, c.args[0])
        if istop(d):
            return UNIT
        if istop(v):
            c.I.write(c.st, loc, string(*d[1], T("top", str(v[1]))))
            return UNIT
        c.I.write(c.st, loc, string(*d[1], *self.sval(c.I, c.st, v)[1]))
        return UNIT

    def t_push(self, c):
        loc = self.innermost(c.I, c.st, c.args[0])
        d = c.I.full(c.st, c.args[0])
        if istop(d):
            return UNIT
        c.I.write(c.st, loc, string(*d[1], self.chpart(c.st, c.args[1])))
        return UNIT

    def chpart(self, st, x):
        k = st.g.const(x) if not istop(x) else None
        if k is not None:
            return chr(k)
        if istop(x):
            return T("top", str(x[1]))
        p = self.char_part(x)
        return p

    def t_pop(self, c):
        d = self.sval(c.I, c.st, c.args[0])
        if not d[1]:
            return NONE
        p = d[1][-1]
        loc = self.innermost(c.I, c.st, c.args[0])
        if isinstance(p, str):
            c.I.write(c.st, loc, string(*d[1][:-1], p[:-1]))
            return some(ord(p[-1]))
        raise Undecided("pop of opaque text")

    def t_clear(self, c):
        c.I.write(c.st, self.innermost(c.I, c.st, c.args[0]), ("str", ()))
        return UNIT

    def t_insert_str(self, c):
        d = self.sval(c.I, c.st, c.args[0])
        v = self.sval(c.I, c.st, c.args[2])
        k = c.st.g.const(c.args[1])
        loc = self.innermost(c.I, c.st, c.args[0])
        if k == 0:
            c.I.write(c.st, loc, string(*v[1], *d[1]))
            return UNIT
        raise Undecided("insert into text")

    def t_insert(self, c):
        d = self.sval(c.I, c.st, c.args[0])
        k = c.st.g.const(c.args[1])
        if k == 0:
            c.I.write(c.st, self.innermost(c.I, c.st, c.args[0]), string(self.chpart(c.st, c.args[2]), *d[1]))
            return UNIT
        raise Undecided("insert into text")

    def t_truncate(self, c):
        I, st = c.I, c.st
        d = self.sval(I, st, c.args[0])
        out = []
        y, n = I.split(st, ult(c.args[1], length(d), 64, st.g))
        out += [(s, UNIT) for s in n]
        for s in y:
            for s2 in self.need(I, s, self.bound(s, d, c.args[1]), "not a character boundary"):
                for s3, e, _ in self.cut(I, s2, str_bytes(d[1]), 0, c.args[1]):
                    I.write(s3, self.innermost(I, s3, c.args[0]), bytes_str(e))
                    out.append((s3, UNIT))
        return out

    # slicing
    def bound(self, st, v, k):
        """k <= len and k is a character boundary"""
        if any(isT(p, "pick") for p in v[1]):
            raise Undecided("the characters of a text known by its class")
        els = expand(st.g, str_bytes(v[1]))
        n = len_els(els)
        if k is n or k == n:
            return TRUE
        c = st.g.const(k)
        if c is None:
            d = st.g.const(sub(n, k, 64))
            if d is not None and all(isT(e, "sp") and asciiterm(e.args[0]) or (type(e) is int and e < 128) for e in els):
                return TRUE if d < 1 << 32 else FALSE
            if d is not None and 0 < d <= len(els) and not any(isT(e, "sp") for e in els[-d:]):
                # within a known ending
                e = els[-d]
                if type(e) is int:
                    return TRUE if e & 0xC0 != 0x80 else FALSE
                return TRUE if st.g.range(e)[1] < 128 else Not(in_val(e, ((128, 191),), 8))
            e = els[-1]
            if d is not None and 0 < d < 64 and isT(e, "sp"):
                # the end of what precedes a known ending
                for f, y in st.g.lit.items():
                    if y is True and f.op == "p" and f.args[0] == "ends" and f.args[2] is e.args[0] and len(f.args[1].encode()) >= d:
                        b = f.args[1].encode()
                        return TRUE if b[len(b) - d] & 0xC0 != 0x80 else FALSE
            raise Undecided("character boundary at symbolic offset")
        if c == 0:
            return TRUE
        pos = 0
        for i, e in enumerate(els):
            if isT(e, "sp"):
                x = e.args[0]
                j = c - pos
                if j == 0:
                    return TRUE
                if i != len(els) - 1 and natural(T("len", x, w=64))[0] < j:
                    raise Undecided("character boundary after opaque text")
                f = self.le(j, len_term(x), st.g)
                if asciiterm(x) or st.g.eval(P("b58chars", x)) is True:
                    return f
                return And(f, P("bound", x, j))
            if pos == c:
                if type(e) is int:
                    return TRUE if e & 0xC0 != 0x80 else FALSE
                if st.g.range(e)[1] < 128:
                    return TRUE
                return Not(in_val(e, ((128, 191),), 8))
            pos += 1
        return TRUE if pos == c else FALSE

    def str_range(self, c, panic):
        I, st = c.I, c.st
        v = self.sval(I, st, c.args[0])
        n = length(v)
        lo, hi = self.range_of(c.args[1], n)
        f = And(self.le(lo, hi, st.g), self.le(hi, n, st.g))
        y, bad = I.split(st, f)
        out = []
        for s in y:
            cur = [s]
            for k in (lo, hi):
                nxt = []
                for q in cur:
                    a, b = I.split(q, self.bound(q, v, k))
                    nxt += a
                    bad = bad + b
                cur = nxt
            for q in cur:
                for s2, e, w in self.cut(I, q, str_bytes(v[1]), lo, hi):
                    out.append((s2, ref(bytes_str(e))))
        if panic:
            for s in bad:
                I.panic(s, "string slice out of range or not on a character boundary")
            return out
        return [(s, some(r)) for s, r in out] + [(s, NONE) for s in bad]

    def t_index(self, c):
        return self.str_range(c, True)

    t_index_mut = t_index

    def t_get(self, c):
        return self.str_range(c, False)

    def t_is_char_boundary(self, c):
        return self.bound(c.st, self.sval(c.I, c.st, c.args[0]), c.args[1])

    def t_split_at(self, c, checked=False):
        I, st, a = c.I, c.st, c.args
        v = self.sval(I, st, a[0])
        n = length(v)
        y, bad = I.split(st, self.le(a[1], n, st.g))
        out = []
        for s in y:
            g, b = I.split(s, self.bound(s, v, a[1]))
            bad = bad + b
            for q in g:
                for s2, e, _ in self.cut(I, q, str_bytes(v[1]), 0, a[1]):
                    for s3, t, _ in self.cut(I, s2, str_bytes(v[1]), a[1], n):
                        p = ("tup", (ref(bytes_str(e)), ref(bytes_str(t))))
                        out.append((s3, some(p) if checked else p))
        for s in bad:
            if checked:
                out.append((s, NONE))
            else:
                I.panic(s, "split_at not on a character boundary")
        return out

    def t_split_at_checked(self, c):
        return self.t_split_at(c, True)

    # splitting
    def t_split_whitespace(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        w = self.ws_term(v)
        if w is not None:
            its = self.word_items(w)
            if len(w.args) > 1:
                return ("it", "open", tuple(its))
            return it_list(its)
        ps = self.pieces(c.I, c.st, v, ("chars", WS))
        return it_list([ref(string(*p)) for p in ps if p])

    def t_split_ascii_whitespace(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        ps = self.pieces(c.I, c.st, v, ("chars", "\t\n\x0c\r "))
        return it_list([ref(string(*p)) for p in ps if p])

    def t_split(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        pat = self.pattern(c.I, c.st, c.args[1])
        return it_list([ref(string(*p)) for p in self.pieces(c.I, c.st, v, pat)])

    def t_rsplit(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        pat = self.pattern(c.I, c.st, c.args[1])
        return it_list([ref(string(*p)) for p in self.pieces(c.I, c.st, v, pat)[::-1]])

    def t_split_terminator(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        pat = self.pattern(c.I, c.st, c.args[1])
        ps = self.pieces(c.I, c.st, v, pat)
        if ps and not ps[-1]:
            ps = ps[:-1]
        return it_list([ref(string(*p)) for p in ps])

    def sep_of(self, pat):
        if pat[0] == "text" or (pat[0] == "chars" and len(pat[1]) == 1):
            return pat[1]
        raise Undecided("limited split by predicate")

    def joinp(self, ps, sep):
        out = []
        for i, p in enumerate(ps):
            if i:
                out.append(sep)
            out += list(p)
        return ref(string(*out))

    def t_splitn(self, c, rev=False):
        v = self.sval(c.I, c.st, c.args[0])
        n = c.st.g.const(c.args[1])
        pat = self.pattern(c.I, c.st, c.args[2])
        ps = self.pieces(c.I, c.st, v, pat)
        if n == 0:
            return it_list(())
        if len(ps) <= n:
            return it_list([ref(string(*p)) for p in (ps[::-1] if rev else ps)])
        sep = self.sep_of(pat)
        if rev:
            k = len(ps) - n + 1
            return it_list([ref(string(*p)) for p in ps[k:][::-1]] + [self.joinp(ps[:k], sep)])
        return it_list([ref(string(*p)) for p in ps[:n - 1]] + [self.joinp(ps[n - 1:], sep)])

    def t_rsplitn(self, c):
        return self.t_splitn(c, True)

    def t_split_once(self, c, rev=False):
        v = self.sval(c.I, c.st, c.args[0])
        pat = self.pattern(c.I, c.st, c.args[1])
        ps = self.pieces(c.I, c.st, v, pat)
        if len(ps) < 2:
            return NONE
        sep = self.sep_of(pat)
        if rev:
            return some(("tup", (self.joinp(ps[:-1], sep), ref(string(*ps[-1])))))
        return some(("tup", (ref(string(*ps[0])), self.joinp(ps[1:], sep))))

    def t_rsplit_once(self, c):
        return self.t_split_once(c, True)

    def t_split_inclusive(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        pat = self.pattern(c.I, c.st, c.args[1])
        ps = self.pieces(c.I, c.st, v, pat)
        sep = self.sep_of(pat)
        out = [ref(string(*p, sep)) for p in ps[:-1]]
        if ps[-1]:
            out.append(ref(string(*ps[-1])))
        return it_list(out)

    def t_lines(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        k = self.const_str(v)
        if k is None:
            raise Undecided("lines of opaque text")
        ls = k.split("\n")
        if ls and ls[-1] == "":
            ls = ls[:-1]
        return it_list([ref(string(x[:-1] if x.endswith("\r") else x)) for x in ls])

    # trimming
    def t_trim(self, c, start=True, end=True, pat=None):
        v = self.sval(c.I, c.st, c.args[0])
        w = self.ws_term(v)
        if w is not None and pat is None:
            return ref(string(w))
        cs = set(WS)
        if pat is not None:
            p = self.pattern(c.I, c.st, pat)
            if p[0] == "text" and len(p[1]) == 1:
                p = ("chars", p[1])
            if p[0] == "text":
                k = self.const_str(v)
                if k is None or not p[1]:
                    return self.opaque_trim(v, p, start, end)
                while start and k.startswith(p[1]):
                    k = k[len(p[1]):]
                while end and k.endswith(p[1]):
                    k = k[:len(k) - len(p[1])]
                return ref(string(k))
            if p[0] == "pred":
                k = self.const_str(v)
                allc = set("".join(q for q in v[1] if isinstance(q, str)))
                cs = self.pred_set(c.I, c.st, p[1], allc)
                if k is None:
                    hit = self.pred_set(c.I, c.st, p[1], [chr(i) for i in range(128)])
                    if not hit <= set(WS):
                        cs2 = [q for q in v[1] if not isinstance(q, str)]
                        if not all(self.free_all(q, hit) for q in cs2):
                            return self.opaque_trim(v, p, start, end)
            elif p[0] == "chars":
                cs = set(p[1])
            else:
                raise Undecided("trim pattern")
        if w is not None:
            if cs <= set(WS):
                return ref(string(w))
            raise Undecided("trimming the words of a text")
        ps = list(v[1])
        if start:
            while ps and isinstance(ps[0], str):
                t = ps[0]
                while t and t[0] in cs:
                    t = t[1:]
                if t:
                    ps[0] = t
                    break
                ps.pop(0)
            if ps and not isinstance(ps[0], str) and not self.free_all(ps[0], cs):
                return self.opaque_trim(v, ("chars", "".join(sorted(cs))), start, end)
        if end:
            while ps and isinstance(ps[-1], str):
                t = ps[-1]
                while t and t[-1] in cs:
                    t = t[:-1]
                if t:
                    ps[-1] = t
                    break
                ps.pop()
            if ps and not isinstance(ps[-1], str) and not self.free_all(ps[-1], cs):
                return self.opaque_trim(v, ("chars", "".join(sorted(cs))), start, end)
        return ref(string(*ps))

    def opaque_trim(self, v, p, start, end):
        k = skey(v[1])
        return ref(string(T("trim", k, str(p[1]) if p[0] != "pred" else "?", start, end)))

    def t_trim_start(self, c):
        return self.t_trim(c, True, False)

    def t_trim_end(self, c):
        return self.t_trim(c, False, True)

    def t_trim_matches(self, c):
        return self.t_trim(c, True, True, c.args[1])

    def t_trim_start_matches(self, c):
        return self.t_trim(c, True, False, c.args[1])

    def t_trim_end_matches(self, c):
        return self.t_trim(c, False, True, c.args[1])

    # prefixes and suffixes
    def t_starts_with(self, c):
        return self.str_starts(c, False)

    def t_ends_with(self, c):
        return self.str_starts(c, True)

    def str_starts(self, c, end):
        I, st = c.I, c.st
        v = self.sval(I, st, c.args[0])
        p = self.pattern(I, st, c.args[1])
        return self.starts_f(I, st, v, p, end)

    def starts_f(self, I, st, v, p, end):
        if p[0] == "sym":
            k, q = skey(v[1]), skey(p[1])
            if k is q:
                return TRUE
            if q == "":
                return TRUE
            if not end and isT(q, "pick") and isinstance(k, str):
                f = pick_in(q, "begun", k)
                if f is not None:
                    return f
            return P("ends" if end else "starts", q, k)
        if p[0] == "pred":
            if not v[1]:
                return FALSE
            e = v[1][-1] if end else v[1][0]
            if isinstance(e, str):
                r = I.call_fn(st.copy(), p[1], [ord(e[-1] if end else e[0])])
                if len(r) == 1 and not istop(r[0][1]):
                    return r[0][1]
            raise Undecided("predicate on opaque text")
        pats = [p[1]] if p[0] == "text" else list(p[1])
        fs = []
        for t in pats:
            fs.append(self.starts_c(st, v[1], t, end))
        return Or(*fs)

    def starts_c(self, st, parts, t, end):
        parts = string(*bytes_str(str_bytes(parts))[1])[1]
        if t == "":
            return TRUE
        if not parts:
            return FALSE
        e = parts[-1] if end else parts[0]
        if isinstance(e, str):
            n = min(len(e), len(t))
            if end:
                if e[len(e) - n:] != t[len(t) - n:]:
                    return FALSE
                return TRUE if n == len(t) else self.starts_c(st, parts[:-1], t[:len(t) - n], end)
            if e[:n] != t[:n]:
                return FALSE
            return TRUE if n == len(t) else self.starts_c(st, parts[1:], t[n:], end)
        ch = t[-1] if end else t[0]
        nonempty = e.op in ("nib", "dec", "b58c", "word", "wsword", "bs")
        if e.op == "bs" and sized(e.args[0]):
            b, p = e.args[0], t.encode()
            n = min(len(b), len(p))
            if n == len(p) or t.isascii():
                if end:
                    f = And(*[eq(x, y, 8) for x, y in zip(b[len(b) - n:], p[len(p) - n:])])
                    return f if n == len(p) else And(f, self.starts_c(st, parts[:-1], t[:len(p) - n], end))
                f = And(*[eq(x, y, 8) for x, y in zip(b, p)])
                return f if n == len(p) else And(f, self.starts_c(st, parts[1:], t[n:], end))
        if e.op == "nib":
            f = streq_const(e, ch)
            return And(f, self.starts_c(st, parts[:-1], t[:-1], end) if end else self.starts_c(st, parts[1:], t[1:], end))
        if nonempty and free_of(e, ch) or len(parts) == 1 and any(free_of(e, x) for x in t):
            return FALSE
        k = skey(parts)
        if not end and isT(k, "pick"):
            f = pick_in(k, "begins", t)
            if f is not None:
                return f
        if len(parts) > 1:
            how = self.crossing(parts, t, end)
            if how == ():
                k = e
            elif how is not None:
                return Or(*[f for _, f in how])
        return P("ends" if end else "starts", t, k)

    def t_strip_prefix(self, c):
        return self.str_strip(c, False)

    def t_strip_suffix(self, c):
        return self.str_strip(c, True)

    def str_strip(self, c, end):
        I, st = c.I, c.st
        v = self.sval(I, st, c.args[0])
        p = self.pattern(I, st, c.args[1])
        if p[0] not in ("text", "chars"):
            raise Undecided("strip pattern")
        out, rest = [], [st]
        for t in [p[1]] if p[0] == "text" else sorted(set(p[1])):
            nxt = []
            for q in rest:
                y, n = I.split(q, self.starts_c(q, v[1], t, end))
                out += [(s, some(ref(self.stripped(s.g, v[1], t, end)))) for s in y]
                nxt += n
            rest = nxt
        return out + [(s, NONE) for s in rest]

    def stripped(self, g, parts, t, end):
        """rest of a text known to start (end) with t"""
        parts = list(string(*bytes_str(str_bytes(parts))[1])[1])
        while t and parts:
            e = parts[-1] if end else parts[0]
            if isinstance(e, str):
                n = min(len(e), len(t))
                if end:
                    parts[-1] = e[:len(e) - n]
                    t = t[:len(t) - n]
                    if not parts[-1]:
                        parts.pop()
                else:
                    parts[0] = e[n:]
                    t = t[n:]
                    if not parts[0]:
                        parts.pop(0)
                continue
            n = len(t.encode())
            if e.op == "nib" or e.op == "bs" and sized(e.args[0]):
                b = e.args[0] if e.op == "bs" else (e,)
                m = min(len(b), n)
                if m < n and not t.isascii():
                    raise Undecided("strip of composed text")
                parts.pop(-1 if end else 0)
                r = b[:len(b) - m] if end else b[m:]
                if r:
                    parts.insert(len(parts) if end else 0, T("bs", tuple(r)))
                t = "" if m == n else t[:len(t) - m] if end else t[m:]
                continue
            if len(parts) > 1:
                how = self.crossing(parts, t, end)
                if how is None:
                    raise Undecided("strip of composed text")
                if how == ():
                    pass
                else:
                    hit = [i for i, f in how if g.eval(f) is True]
                    if len(hit) != 1:
                        raise Undecided("strip of composed text")
                    parts.pop(-1 if end else 0)
                    t = t[:len(t) - hit[0]] if end else t[hit[0]:]
                    continue
            if end:
                parts[-1] = subterm(e, 0, n)
            else:
                parts[0] = subterm(e, n, 0)
            return string(*parts)
        return string(*parts)

    def crossing(self, parts, t, end):
        """how a text made of an opaque piece and more can start (end) with t: () - only the piece itself matters,
        else the (length taken from the piece, condition) of each way, or None when neither is known"""
        e = parts[-1] if end else parts[0]
        rest = parts[:-1] if end else parts[1:]
        u = t[::-1] if end else t
        j = next((i for i, ch in enumerate(u) if free_of(e, ch)), None)
        if j is not None:
            out = []
            for i in range(j + 1):
                f = And(str_eq((e,), ((t[len(t) - i:] if end else t[:i]),) if i else ()),
                        self.starts_c(None, rest, t[:len(t) - i] if end else t[i:], end))
                if f is not FALSE:
                    out.append((i, f))
            return out
        nx = rest[-1] if end else rest[0]
        if isinstance(nx, str):
            if (nx[-1] if end else nx[0]) not in t:
                return ()
        return None

    def t_contains(self, c):
        return self.str_contains(c)

    def str_contains(self, c):
        I, st = c.I, c.st
        v = self.sval(I, st, c.args[0])
        p = self.pattern(I, st, c.args[1])
        k = self.const_str(v)
        if p[0] == "pred":
            if k is None:
                raise Undecided("predicate on opaque text")
            return TRUE if self.pred_set(I, st, p[1], set(k)) else FALSE
        if p[0] == "sym":
            return P("contains", skey(p[1]), skey(v[1]))
        pats = [p[1]] if p[0] == "text" else list(p[1])
        if k is not None:
            return TRUE if any(t in k for t in pats) else FALSE
        fs = []
        for t in pats:
            if any(isinstance(q, str) and t in q for q in v[1]):
                return TRUE
            if len(t) == 1 and all(isinstance(q, str) or free_of(q, t) for q in v[1]):
                continue
            fs.append(P("contains", t, skey(v[1])))
        return Or(*fs)

    def t_find(self, c, rev=False):
        I, st = c.I, c.st
        v = self.sval(I, st, c.args[0])
        p = self.pattern(I, st, c.args[1])
        k = self.const_str(v)
        if p[0] == "pred" and k is not None:
            cs = self.pred_set(I, st, p[1], set(k))
            hits = [i for i, ch in enumerate(k) if ch in cs]
            if not hits:
                return NONE
            return some(len(k[:hits[-1 if rev else 0]].encode()))
        if p[0] in ("chars", "text"):
            if k is not None:
                pats = [p[1]] if p[0] == "text" else list(p[1])
                hits = [(k.rfind if rev else k.find)(t) for t in pats]
                hits = [h for h in hits if h >= 0]
                if not hits:
                    return NONE
                return some(len(k[:(max if rev else min)(hits)].encode()))
            ps = self.pieces(I, st, v, p)
            if len(ps) == 1:
                return NONE
            if rev:
                raise Undecided("rfind in opaque text")
            return some(length(string(*ps[0])))
        raise Undecided("find in opaque text")

    def t_rfind(self, c):
        return self.t_find(c, True)

    def t_matches(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        p = self.pattern(c.I, c.st, c.args[1])
        if p[0] in ("text", "chars"):
            ps = self.pieces(c.I, c.st, v, p)
            if p[0] == "text" or len(p[1]) == 1:
                return it_list([ref(string(p[1]))] * (len(ps) - 1))
        raise Undecided("matches")

    def t_replace(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        p = self.pattern(c.I, c.st, c.args[1])
        to = self.sval(c.I, c.st, c.args[2])
        k = self.const_str(v)
        if k is None and not all(isinstance(q, str) or (p[0] in ("text", "chars") and self.free_all(q, p[1])) for q in v[1]):
            if p[0] == "text":
                return string(T("replace", skey(v[1]), p[1], skey(to[1])))
            raise Undecided("replace in opaque text")
        ps = self.pieces(c.I, c.st, v, p)
        out = []
        for i, q in enumerate(ps):
            if i:
                out += list(to[1])
            out += list(q)
        return string(*out)

    # case
    def casemap(self, v, op, const):
        out = []
        for p in v[1]:
            if isinstance(p, str):
                out.append(const(p))
            elif p.op == "dec":
                out.append(p)
            elif p.op == "nib":
                out.append(T("nib", p.args[0], op in ("asupper", "uupper")))
            elif p.op == op:
                out.append(p)
            elif p.op == "word" and p.args[0] in ("en", "zh") and op in ("aslower", "ulower"):
                out.append(p)
            else:
                out.append(T(op, p))
        return string(*out)

    def t_to_ascii_lowercase(self, c):
        return self.case_bytes(c, "aslower", lower_const)

    def t_to_ascii_uppercase(self, c):
        return self.case_bytes(c, "asupper", upper_const)

    def case_bytes(self, c, op, const):
        v = c.I.full(c.st, c.args[0])
        if istop(v):
            return v
        if is_arr(v):
            return arr(str_bytes(self.casemap(bytes_str(v[1]), op, const)[1]))
        return self.casemap(v, op, const)

    def t_make_ascii_lowercase(self, c):
        v = self.case_bytes(c, "aslower", lower_const)
        c.I.write(c.st, self.innermost(c.I, c.st, c.args[0]), v)
        return UNIT

    def t_make_ascii_uppercase(self, c):
        v = self.case_bytes(c, "asupper", upper_const)
        c.I.write(c.st, self.innermost(c.I, c.st, c.args[0]), v)
        return UNIT

    def t_to_lowercase(self, c):
        return self.casemap(self.sval(c.I, c.st, c.args[0]), "ulower", str.lower)

    def t_to_uppercase(self, c):
        return self.casemap(self.sval(c.I, c.st, c.args[0]), "uupper", str.upper)

    def t_eq_ignore_ascii_case(self, c):
        a, b = c.I.full(c.st, c.args[0]), c.I.full(c.st, c.args[1])
        if istop(a) or istop(b):
            return a if istop(a) else b
        if is_arr(a) or is_arr(b):
            a, b = bytes_str(a[1]) if is_arr(a) else a, bytes_str(b[1]) if is_arr(b) else b
        return str_eq(self.casemap(a, "aslower", lower_const)[1], self.casemap(b, "aslower", lower_const)[1])

    def t_is_ascii(self, c):
        v = c.I.full(c.st, c.args[0])
        if istop(v):
            return v
        if type(v) is int or isT(v, "bv"):
            return ult(v, 128, max(8, w_of(v)) if type(v) is Term else 64)
        els = v[1] if is_arr(v) else str_bytes(v[1])
        fs = []
        for e in expand(c.st.g, els):
            if isT(e, "sp"):
                fs.append(TRUE if asciiterm(e.args[0]) else P("ascii", e.args[0]))
            else:
                fs.append(ult(e, 128, 8))
        return And(*fs)

    def t_chars_rev(self, c):
        return NotImplemented

    def t_repeat(self, c):
        return self.q_repeat(c)

    def t_parse(self, c):
        return NotImplemented

    def t_retain(self, c):
        raise Undecided("retain on text")

    def t_drain(self, c):
        I, st, a = c.I, c.st, c.args
        v = self.sval(I, st, a[0])
        n = length(v)
        lo, hi = self.range_of(a[1], n)
        out = []
        for s in self.need(I, st, And(self.le(lo, hi, st.g), self.le(hi, n, st.g)), "drain out of range"):
            for s2, e, w in self.cut(I, s, str_bytes(v[1]), lo, hi):
                if w is None:
                    raise Undecided("drain of opaque text")
                els = expand(s2.g, str_bytes(v[1]))
                I.write(s2, self.innermost(I, s2, a[0]), bytes_str(els[:w[0]] + els[w[1]:]))
                out.append((s2, ("it", "chars", bytes_str(e)[1])))
        return out

    def t_extend(self, c):
        I, st, a = c.I, c.st, c.args
        out = []
        for s, parts in self.gather_text(I, st, self.to_iter(I, st, a[1])):
            d = I.full(s, a[0])
            if not istop(d):
                I.write(s, self.innermost(I, s, a[0]), string(*d[1], *parts))
            out.append((s, UNIT))
        return out

    def gather_text(self, I, st, it):
        """concatenate the characters or strings an iterator yields -> [(state, parts)]"""
        if it[0] == "it" and it[1] == "chars":
            return [(st, it[2])]
        if it[0] == "it" and it[1] == "chain":
            out = []
            for s, p in (self.gather_text(I, st, it[2]) if it[2] is not None else [(st, ())]):
                out += [(s2, tuple(p) + tuple(q)) for s2, q in self.gather_text(I, s, it[3])]
            return out
        if it[0] == "it" and it[1] == "flatten" and it[4] is None:
            # text pieces produced one after the other
            out = []
            for s, xs in self.items(I, st, it[2]):
                cur = [(s, ())]
                for x in xs:
                    nxt = []
                    for s2, acc in cur:
                        for s3, v, _ in ([(s2, x, None)] if it[3] is None else I.call_fn(s2, it[3], [x])):
                            for s4, q in self.gather_text(I, s3, self.to_iter(I, s3, v)):
                                nxt.append((s4, acc + tuple(q)))
                    cur = nxt
                out += cur
            return out
        out = []
        for s, xs in self.items(I, st, it):
            parts = []
            for x in xs:
                parts += self.text_item(I, s, x)
            out.append((s, tuple(parts)))
        return out

    def text_item(self, I, s, x):
        v = I.full(s, x)
        if istop(v):
            return [T("top", str(v[1]))]
        if type(v) is int or isT(v, "bv"):
            return [self.chpart(s, v)]
        if is_str(v):
            return list(v[1])
        if isinstance(v, tuple) and v[0] == "it":
            r = self.gather_text(I, s, v)
            if len(r) == 1:
                return list(r[0][1])
        raise Undecided("text from " + str(v[0] if isinstance(v, tuple) else v))

    def t_from_utf8(self, c):
        I, st = c.I, c.st
        v = I.full(st, c.args[0])
        wrapref = c.args[0][0] in ("&", "&m")
        e = ("adt", "core::str::error::Utf8Error", 0, (0, NONE))
        if istop(v):
            raise Undecided("utf-8: " + str(v[1]))
        els = expand(st.g, v[1])
        f = self.utf8_f(st, els)
        y, n = I.split(st, f)
        out = []
        for s in y:
            x = bytes_str(els)
            out.append((s, ok(ref(x) if wrapref else x)))
        if not wrapref:
            e = ("adt", "alloc::string::FromUtf8Error", 0, (v, e))
        return out + [(s, err(e)) for s in n]

    def utf8_f(self, st, els):
        if all(type(e) is int for e in els):
            try:
                bytes(els).decode("utf-8")
                return TRUE
            except UnicodeDecodeError:
                return FALSE
        okk = True
        for e in els:
            if isT(e, "sp"):
                x = e.args[0]
                if x.op in ("b58c", "b58p", "nib", "dec", "word", "var", "wsword", "elt", "nfkd", "ws"):
                    continue
                okk = False
            elif type(e) is int:
                if e >= 128:
                    okk = False
            elif st.g.range(e)[1] >= 128:
                okk = False
        if okk:
            return TRUE
        return P("utf8ok", tuple(els))

    def t_from_utf8_lossy(self, c):
        v = c.I.full(c.st, c.args[0])
        if istop(v):
            return v
        els = expand(c.st.g, v[1])
        if self.utf8_f(c.st, els) is TRUE:
            return bytes_str(els)
        return string(T("lossy", tuple(els)))

    def t_from_utf8_unchecked(self, c):
        v = c.I.full(c.st, c.args[0])
        if istop(v):
            return v
        return ref(bytes_str(expand(c.st.g, v[1]))) if c.args[0][0] in ("&", "&m") else bytes_str(expand(c.st.g, v[1]))

    def t_from(self, c):
        v = c.I.full(c.st, c.args[0])
        if istop(v) or is_str(v):
            return v
        if type(v) is int or isT(v, "bv"):
            return string(self.chpart(c.st, v))
        return NotImplemented

    def t_from_str(self, c):
        r = self.t_from(c)
        return r if r is NotImplemented else ok(r)

    def t_default(self, c):
        return ("str", ())

    def t_concat(self, c):
        return self.q_concat(c)

    def t_join(self, c):
        return self.q_concat(c, c.args[1])

    def t_add(self, c):
        v = self.sval(c.I, c.st, c.args[0])
        return string(*v[1], *self.sval(c.I, c.st, c.args[1])[1])

    def t_add_assign(self, c):
        return self.t_push_str(c)

    def t_write_str(self, c):
        self.t_push_str(c)
        return ok(UNIT)

    def t_write_char(self, c):
        self.t_push(c)
        return ok(UNIT)

    # ------------------------------------------------------------------ chars
    def s_char(self, c, seg):
        x = c.I.full(c.st, c.args[0]) if c.args else None
        if istop(x):
            return x
        w = 8 if c.name.startswith("core::num::<impl u8>") else 32
        cls = {"is_ascii_digit": [(48, 57)], "is_ascii_hexdigit": [(48, 57), (65, 70), (97, 102)], "is_ascii_lowercase": [(97, 122)],
               "is_ascii_uppercase": [(65, 90)], "is_ascii_alphabetic": [(65, 90), (97, 122)], "is_ascii": [(0, 127)],
               "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)], "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)],
               "is_ascii_punctuation": [(33, 47), (58, 64), (91, 96), (123, 126)], "is_ascii_graphic": [(33, 126)],
               "is_ascii_control": [(0, 31), (127, 127)]}
        if seg in cls:
            return in_val(x, tuple(cls[seg]), w) if type(x) is not int else (TRUE if any(a <= x <= b for a, b in cls[seg]) else FALSE)
        k = c.st.g.const(x) if x is not None else None
        if seg in ("to_ascii_lowercase", "to_ascii_uppercase"):
            return byte_case(k if k is not None else x, seg == "to_ascii_lowercase", w)
        if seg in ("is_whitespace", "is_alphabetic", "is_numeric", "is_alphanumeric", "is_uppercase", "is_lowercase", "is_control"):
            if k is not None:
                ch = chr(k)
                cat = unicodedata.category(ch)
                if k > 127 and seg in ("is_alphabetic", "is_alphanumeric", "is_uppercase", "is_lowercase") and cat not in ("Lu", "Ll", "Lt", "Lo", "Zs", "Po", "Sm", "Sc", "Ps", "Pe", "Pd"):
                    raise Undecided("properties of unusual characters")
                r = {"is_whitespace": ch in WS, "is_alphabetic": ch.isalpha(), "is_numeric": cat in ("Nd", "Nl", "No"), "is_alphanumeric": ch.isalpha() or cat in ("Nd", "Nl", "No"),
                     "is_uppercase": ch.isupper(), "is_lowercase": ch.islower(), "is_control": ord(ch) < 32 or 127 <= ord(ch) < 160}[seg]
                return TRUE if r else FALSE
            if seg == "is_whitespace" and c.st.g.range(x)[1] < 128:
                return in_val(x, ((9, 13), (32, 32)), w)
            return P("charcls", seg, x)
        if seg == "is_digit" or seg == "to_digit":
            r = c.st.g.const(c.args[1])
            if r is None or r > 36:
                raise Undecided("radix")
            lowc = [(48, 47 + min(r, 10))]
            if r > 10:
                lowc += [(65, 54 + r), (97, 86 + r)]
            f = in_val(x, tuple(lowc), w) if type(x) is not int else (TRUE if any(a <= x <= b for a, b in lowc) else FALSE)
            if seg == "is_digit":
                return f
            if k is not None:
                return some(int(chr(k), 36)) if f is TRUE else NONE
            y, n = c.I.split(c.st, f)
            return [(s, some(tv(T("digit", x, w=32)))) for s in y] + [(s, NONE) for s in n]
        if seg == "len_utf8":
            if k is not None:
                return len(chr(k).encode())
            if c.st.g.range(x)[1] < 128:
                return 1
            return top("len_utf8")
        if seg in ("from", "from_u32_unchecked"):
            return self.widen(x, 32)
        if seg == "from_u32":
            if k is not None:
                return some(k) if k < 0xD800 or 0xE000 <= k < 0x110000 else NONE
            return NotImplemented
        if seg == "from_digit":
            r = c.st.g.const(c.args[1])
            if k is not None and r is not None:
                return some(ord("0123456789abcdefghijklmnopqrstuvwxyz"[k])) if k < r else NONE
            if r == 16:
                y, n = c.I.split(c.st, ult(x, 16, 32, c.st.g))
                return [(s, some(tv(T("nibc", trunc(x, 4), False, w=8), 32))) for s in y] + [(s, NONE) for s in n]
            raise Undecided("from_digit")
        if seg == "eq_ignore_ascii_case":
            y = c.I.full(c.st, c.args[1])
            if istop(y):
                return y
            return eq(byte_case(x, True, w), byte_case(y, True, w), w)
        if seg in ("to_lowercase", "to_uppercase") and k is not None:
            t = chr(k).lower() if seg == "to_lowercase" else chr(k).upper()
            return ("it", "chars", (t,))
        if seg == "escape_default" or seg == "encode_utf8":
            return NotImplemented
        return NotImplemented
