"""Abstract strings, byte sequences, their lengths, equality and order."""
import hashlib
import os

from core import *
from interp import *

OFFICIAL = {
    "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda": "en",
    "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726": "zh",
}
TABLES = {}        # table key -> tuple of words
INDEX = {}         # table key -> {word: position}


def table_key(words):
    words = tuple(words)
    h = hashlib.sha256(("\n".join(words) + "\n").encode()).hexdigest()
    k = OFFICIAL.get(h) or "table:" + h[:16]
    if k not in TABLES:
        TABLES[k] = words
        INDEX[k] = {}
        for i, w in enumerate(words):
            INDEX[k].setdefault(w, i)
    return k


for _k in ("en", "zh"):
    # the official lists, committed beside the analyser and checked against their published digests
    _t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", _k + ".txt"), encoding="utf-8").read().split("\n")
    if table_key(_t[:-1] if not _t[-1] else _t) != _k:
        raise SystemExit("data/%s.txt is not the official list" % _k)


# ------------------------------------------------------------------ text classes
# a 'pick' is an unknown text known only through its class relative to a fixed list of words: each prefix of a word is a class of its
# own; all other texts are split by the words they lie between in code point order.  CLASSES[key] = (representatives,
# texts that compare the same way with every member of a class)
CLASSES = {}


def prefix_classes(key):
    if key not in CLASSES:
        ws = TABLES[key]
        exact = {w[:n] for w in ws for n in range(len(w) + 1)}
        order = list(dict.fromkeys(w[:n] for w in ws for n in range(len(w) + 1)))
        CLASSES[key] = (tuple(order + sorted(w + "\0" for w in exact)), exact)
    return CLASSES[key]


PICKED = {}
HOW = {"==": lambda r, c: r == c, "<": lambda r, c: r < c, ">": lambda r, c: r > c,
       "begins": lambda r, c: r.startswith(c), "begun": lambda r, c: c.startswith(r)}


def pick_in(x, how, c):
    """formula: the text of class x compares so with the constant c; None if c is not one of the list's texts"""
    k = x.args[0], how, c
    if k not in PICKED:
        reps, exact = CLASSES[x.args[0]]
        if c not in exact:
            return None
        f = HOW[how]
        if how in ("==", "begun"):
            pos = PICKED.setdefault(k[0], {})
            if not pos:
                pos.update((r, i) for i, r in enumerate(reps))
            PICKED[k] = iv_norm([(pos[r], pos[r]) for r in ({c} if how == "==" else {c[:n] for n in range(len(c) + 1)})])
        else:
            PICKED[k] = iv_norm([(i, i) for i, r in enumerate(reps) if f(r, c)])
    return in_val(x.args[1], PICKED[k], 16)


# ------------------------------------------------------------------ strings and bytes
def is_str(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "str"


def is_arr(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == "arr"


def nospace(t):
    """string terms that contain no ASCII whitespace and none of the path separators"""
    if t.op in ("word", "nib", "dec", "b58c", "elt", "wsword", "hexint"):
        return True
    if t.op in ("nfkd", "sub", "aslower", "asupper", "ulower", "uupper"):
        return isT(t.args[0]) and nospace(t.args[0])
    return False


def str_bytes(parts):
    """byte elements of a string"""
    out = []
    for p in parts:
        if isinstance(p, str):
            out.extend(p.encode("utf-8"))
        elif p.op == "bs":
            out.extend(p.args[0])
        elif p.op == "nib":
            out.append(tv(T("nibc", p.args[0], p.args[1], w=8)))
        else:
            out.append(T("sp", p))
    return tuple(out)


def nib_of(e):
    """the nib term whose character code e is"""
    if isT(e, "bv"):
        r = recover(e)
        if r and r[0] == "z" and r[2] == 0 and r[1].op == "nibc":
            return T("nib", *r[1].args)
    return None


def bytes_str(els):
    """string whose UTF-8 bytes are els (assumed valid)"""
    out, run, sym = [], [], []

    def flush_c():
        if run:
            b = bytes(run)
            try:
                out.append(b.decode("utf-8"))
            except UnicodeDecodeError:
                out.append(T("bs", tuple(run)))
            run.clear()

    def flush_s():
        if sym:
            out.append(T("bs", tuple(sym)))
            sym.clear()
    for e in els:
        if type(e) is int:
            flush_s()
            run.append(e)
        elif isT(e, "sp"):
            flush_c()
            flush_s()
            out.append(e.args[0])
        else:
            n = nib_of(e)
            if n is not None:
                flush_c()
                flush_s()
                out.append(n)
            else:
                flush_c()
                sym.append(e)
    flush_c()
    flush_s()
    return string(*out)


def byte_terms(x, n, w=8):
    o = 0
    if x.op == "sub":
        o, x = x.args[1], x.args[0]
    if x.op == "b58pay":
        x = T("b58dec", x.args[0])
    return tuple(tv(T("byte", x, o + i, w=w)) for i in range(n))


def subterm(x, lo, cut):
    """bytes lo .. len-cut of what x denotes"""
    if lo == 0 and cut == 0:
        return x
    if x.op == "sub":
        return subterm(x.args[0], x.args[1] + lo, x.args[2] + cut)
    if x.op == "b58pay" and lo == 0:
        return T("b58pay", x.args[0], x.args[1] + cut)
    return T("sub", x, lo, cut)


def len_term(x):
    """length in bytes of what a string/byte-sequence term denotes"""
    if x.op == "bs":
        return len_els(x.args[0])
    if x.op == "nib":
        return 1
    if x.op == "b58pay":
        return sub(tv(T("b58tot", x.args[0], w=64)), x.args[1], 64)
    if x.op == "sub":
        return sub(len_term(x.args[0]), x.args[1] + x.args[2], 64)
    return tv(T("len", x, w=64))


def len_els(els):
    n, r = 0, None
    for e in els:
        if type(e) is Term and e.op == "sp":
            l = len_term(e.args[0])
            r = l if r is None else add(r, l, 64)
        else:
            n += 1
    if r is None:
        return n
    return add(r, n, 64) if n else r


def length(v):
    if is_arr(v):
        return len_els(v[1])
    if is_str(v):
        return len_els(str_bytes(v[1]))
    if istop(v):
        return v
    return top("length of %s" % (v[0],))


def skey(parts):
    """canonical key of a string: a Python str, a Term, or a 'cat' term"""
    parts = string(*bytes_str(str_bytes(parts))[1])[1]
    if not parts:
        return ""
    if len(parts) == 1:
        return parts[0]
    return T("cat", *parts)


def expand(g, els):
    """replace unsized pieces whose length the guard fixes by explicit bytes"""
    if sized(els):
        return els
    out = []
    for e in els:
        if isT(e, "sp"):
            l = len_term(e.args[0])
            c = g.const(l)
            if c is not None and c <= 4096:
                out.extend(byte_terms(e.args[0], c))
                continue
        out.append(e)
    return tuple(out)


def sized(els):
    for e in els:
        if type(e) is Term and e.op == "sp":
            return False
    return True


def canon(v):
    """canonical form for comparing results"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "str":
            return ("str", str_bytes(bytes_str(str_bytes(v[1]))[1]))
        if len(v) == 2 and v[0] in ("&", "box"):
            return canon(v[1])
        return tuple(canon(x) for x in v)
    return v


def has_top(v):
    if isinstance(v, tuple):
        if v and v[0] == "top":
            return v[1]
        for x in v:
            if isinstance(x, tuple):
                r = has_top(x)
                if r:
                    return r
            elif type(x) is Term:
                r = term_top(x)
                if r:
                    return r
    elif type(v) is Term:
        return term_top(v)
    return None


_tt = {}


def term_top(t):
    r = _tt.get(t)
    if r is None:
        r = ""
        if t.op == "top":
            r = t.args[0]
        else:
            for a in t.args:
                if type(a) is Term:
                    r = term_top(a)
                elif isinstance(a, tuple):
                    r = has_top(a)
                if r:
                    break
        _tt[t] = r or ""
    return r


# ------------------------------------------------------------------ string predicates
WORDLIKE = ("word",)


def lower_const(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def upper_const(s):
    return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)


def streq_const(x, c):
    """formula: string with key x equals constant c"""
    if isinstance(x, str):
        return TRUE if x == c else FALSE
    if x.op == "pick":
        f = pick_in(x, "==", c)
        if f is not None:
            return f
    if x.op == "aslower":
        if c != lower_const(c):
            return FALSE
    elif x.op == "asupper":
        if c != upper_const(c):
            return FALSE
        if all(ord(ch) < 128 for ch in c):
            x, c = T("aslower", x.args[0]), lower_const(c)
    elif x.op == "ulower":
        if c.isascii() and "k" not in c:
            if c != lower_const(c):
                return FALSE
            x = T("aslower", x.args[0])
    elif x.op == "word":
        t = x.args[0]
        i = INDEX[t].get(c)
        if i is None:
            return FALSE
        return eq(x.args[1], i, 11)
    elif x.op == "bs":
        b = c.encode()
        if sized(x.args[0]):
            if len(b) != len(x.args[0]):
                return FALSE
            return And(*[eq(p, q, 8) for p, q in zip(x.args[0], b)])
    elif x.op == "nib":
        d = "0123456789ABCDEF" if x.args[1] else "0123456789abcdef"
        return eq(x.args[0], d.index(c), 4) if len(c) == 1 and c in d else FALSE
    elif x.op == "cat":
        a = x.args
        if isinstance(a[0], str):
            if not c.startswith(a[0]):
                return FALSE
            return streq_const(skey(a[1:]), c[len(a[0]):])
        if isinstance(a[-1], str):
            if not c.endswith(a[-1]):
                return FALSE
            return streq_const(skey(a[:-1]), c[:len(c) - len(a[-1])])
        if all(isT(p, "nib") for p in a):
            if len(c) != len(a):
                return FALSE
            return And(*[streq_const(p, ch) for p, ch in zip(a, c)])
    elif x.op == "dec":
        if not c.isascii() or not c.isdigit() or str(int(c)) != c or int(c) >> x.args[0].w:
            return FALSE
        return eq(x.args[0], int(c), x.args[0].w)
    elif x.op == "wsword" and (c == "" or any(ch in WS for ch in c)):
        return FALSE
    elif x.op == "elt" and "/" in c:
        return FALSE
    elif x.op == "ws":
        return P("streq", x, c)
    if c == "" and x.op in ("var", "elt", "sub"):
        return eq(len_term(x), 0, 64)
    return P("streq", x, c)


def str_eq(a, b):
    a, b = skey(a), skey(b)
    if a is b or (isinstance(a, str) and isinstance(b, str)):
        return TRUE if a == b else FALSE
    if isinstance(b, str):
        return streq_const(a, b)
    if isinstance(a, str):
        return streq_const(b, a)
    ea, eb = str_bytes(a.args if a.op == "cat" else (a,)), str_bytes(b.args if b.op == "cat" else (b,))
    if sized(ea) and sized(eb):
        return els_eq(ea, eb)
    x, y = sorted((a, b))
    return P("streqs", x, y)


def w_of(*vs):
    for v in vs:
        if type(v) is Term and v.w:
            return v.w
    return 64


def els_eq(a, b):
    if not sized(a) or not sized(b):
        return seq_eq(a, b)
    if len(a) != len(b):
        return FALSE
    return And(*[eq(p, q, max(w_of(p), w_of(q)) if type(p) is Term or type(q) is Term else 64) for p, q in zip(a, b)])


def seq_eq(a, b):
    """equality of byte sequences some of whose pieces have unknown length"""
    if a == b:
        return TRUE
    if sized(a):
        a, b = b, a
    if sized(b):
        sp = [i for i, e in enumerate(a) if isT(e, "sp")]
        if len(sp) == 1:
            i = sp[0]
            k = len(b) - (len(a) - 1)
            if k < 0:
                return FALSE
            x = a[i].args[0]
            f = eq(len_term(x), k, 64)
            if f is FALSE:
                return FALSE
            return And(f, els_eq(a[:i] + byte_terms(x, k) + a[i + 1:], b))
    # common ends
    while a and b and a[0] == b[0]:
        a, b = a[1:], b[1:]
    while a and b and a[-1] == b[-1]:
        a, b = a[:-1], b[:-1]
    x, y = T("seq", tuple(a)), T("seq", tuple(b))
    return P("seqeq", *sorted((x, y)))


def in_list(key, x):
    """formula and index: string key x occurs in table"""
    if isinstance(x, str):
        i = INDEX[key].get(x)
        return (FALSE, 0) if i is None else (TRUE, i)
    if x.op == "word":
        if x.args[0] == key:
            return TRUE, x.args[1]
        inter = set(TABLES[key]) & set(TABLES[x.args[0]])
        if not inter:
            return FALSE, 0
    return P("inlist", key, x), tv(T("widx", key, x, w=11 if len(TABLES[key]) <= 2048 else 64))


# ------------------------------------------------------------------ base58
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58_encode(b):
    n = int.from_bytes(b, "big")
    s = ""
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


def b58_check(els):
    """string parts of base58check text of the given bytes"""
    if all(type(e) is int for e in els):
        b = bytes(els)
        return (b58_encode(b + hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4]),)
    return (T("b58c", tuple(els)),)


def b58_plain(els):
    if all(type(e) is int for e in els):
        return (b58_encode(bytes(els)),)
    return (T("b58p", tuple(els)),)
