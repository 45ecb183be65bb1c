"""Inhabitants of guards: an input that makes every condition of a guard true.

Conditions on texts (where a character boundary falls, what a text ends with, ..) are not all decided jointly by
the interval and literal domains.  A guard that rests on such conditions counts as possible only when concrete
values of its texts and numbers are found that satisfy all of them.
"""
import hashlib
import re
import unicodedata

from core import *
import core


class Unknown(Exception):
    pass


class TooLong(Exception):
    pass


DIGEST = ("hmac", "sha256", "ripemd160", "pbkdf2", "skadd", "pkser", "pkadd")
ROOTS = ("var", "elt", "wsword")
WORD = {"wsword"}


def roots(x, acc):
    todo = [x]
    seen = set()
    while todo:
        t = todo.pop()
        if type(t) is Term:
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op in ROOTS:
                acc.add(t)
            else:
                todo += t.args
        elif isinstance(t, tuple):
            todo += t
    return acc


B58 = set("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")


class Ev:
    def __init__(self, env, steps=None):
        self.env = env
        self.nums = {}       # values already worked out under this assignment
        self.digests = {}
        self.steps = steps or [1 << 40]

    def text(self, t):
        """Python str denoted by a text key"""
        if isinstance(t, str):
            return t
        if isinstance(t, tuple):
            return "".join(self.text(x) for x in t)
        if type(t) is not Term:
            raise Unknown()
        if t in self.env:
            v = self.env[t]
            if not isinstance(v, str):
                raise Unknown()
            return v
        o, a = t.op, t.args
        if o == "cat":
            return "".join(self.text(x) for x in a)
        if o == "nfkd":
            return unicodedata.normalize("NFKD", self.text(a[0]))
        if o in ("aslower", "asupper"):
            return "".join(c.lower() if c.isascii() and o == "aslower" else c.upper() if c.isascii() else c for c in self.text(a[0]))
        if o in ("ulower", "uupper"):
            return self.text(a[0]).lower() if o == "ulower" else self.text(a[0]).upper()
        if o == "trim" and (len(a[1]) == 1 and a[1] != "?" or a[1].isspace()):
            s = self.text(a[0])
            return s.strip(a[1]) if a[2] and a[3] else s.lstrip(a[1]) if a[2] else s.rstrip(a[1])
        if o == "replace" and isinstance(a[1], str):
            return self.text(a[0]).replace(a[1], self.text(a[2]))
        if o == "trunc":
            return self.text(a[0])[:a[1]]
        if o == "lossy":
            return self.els(a[0]).decode(errors="replace")
        if o == "dec":
            return str(self.num(a[0]))
        if o == "word":
            return core_tables()[a[0]][self.num(a[1])]
        if o == "sub":
            b = self.text(a[0]).encode()
            if a[1] + a[2] > len(b):
                raise Unknown()
            try:
                return b[a[1]:len(b) - a[2]].decode()
            except UnicodeDecodeError:
                raise Unknown()
        raise Unknown()

    def els(self, seq):
        out = b""
        for e in seq:
            if type(e) is int:
                out += bytes([e])
            elif type(e) is Term and e.op == "sp":
                out += self.raw(e.args[0])
            elif type(e) is Term:
                out += bytes([self.num(e) & 255])
            else:
                raise Unknown()
        return out

    def raw(self, t):
        if isinstance(t, str):
            return t.encode()
        if isinstance(t, tuple):
            return self.els(t)
        v = self.env.get(t)
        if isinstance(v, bytes):
            return v
        if isinstance(t, Term) and t.op == "seq":
            return self.els(t.args[0])
        return self.text(t).encode()

    def digest(self, t, i):
        """byte i of a digest: a fixed unpredictable function of the values it is made from"""
        m = self.digests.get(t)
        if m is None:
            m = self.digests[t] = repr([t.op] + [self.plain(x) for x in t.args]).encode()
        k = self.digests.get((t, i >> 6))
        if k is None:
            k = self.digests[t, i >> 6] = hashlib.sha512(m + bytes([i >> 6])).digest()
        return k[i & 63]

    def plain(self, x):
        if type(x) is Term:
            if x.op in DIGEST:
                return [x.op] + [self.plain(y) for y in x.args]
            try:
                return self.raw(x)
            except (Unknown, AttributeError):
                return self.num(x)
        if isinstance(x, tuple):
            return self.els(x)
        return x

    def num(self, t):
        if type(t) is int:
            return t
        if type(t) is not Term:
            raise Unknown()
        v = self.nums.get(t)
        if v is None:
            self.steps[0] -= 1
            if self.steps[0] < 0:
                raise TooLong()
            v = self.nums[t] = self.value(t)
        return v

    def value(self, t):
        o, a = t.op, t.args
        if o == "bv":
            n = 0
            for i, b in enumerate(a):
                if b if type(b) is int else self.f(b):
                    n |= 1 << i
            return n
        if o == "var":
            v = self.env.get(t)
            if type(v) is not int:
                raise Unknown()
            return v
        if o == "lin":
            return (sum(self.num(x) * k for x, k in a[0]) + a[1]) & ((1 << t.w) - 1)
        if o == "len":
            return len(self.raw(a[0]))
        if o == "mul":
            return self.num(a[0]) * self.num(a[1]) & (1 << t.w) - 1
        if o == "divide":
            x, y = self.num(a[1]), self.num(a[2])
            if y == 0:
                raise Unknown()
            return x // y if a[0] == "Div" else x % y
        if o == "shift":
            x, y = self.num(a[1]), self.num(a[2]) % t.w
            if a[0] == "Shr" and x >> t.w - 1:
                raise Unknown()      # could be an arithmetic shift
            return x << y & (1 << t.w) - 1 if a[0] == "Shl" else x >> y
        if o == "byte":
            if type(a[0]) is Term and a[0].op in DIGEST and type(a[1]) is int:
                return self.digest(a[0], a[1])
            b = self.raw(a[0])
            if type(a[1]) is not int or a[1] >= len(b):
                raise Unknown()
            return b[a[1]]
        if o == "parse":
            s = self.text(a[1])
            if not self.parse_ok(a[0], s):
                raise Unknown()
            return int(s) & ((1 << t.w) - 1)
        if o == "widx":
            s = self.text(a[1])
            i = core_index()[a[0]].get(s)
            if i is None:
                raise Unknown()
            return i
        raise Unknown()

    def parse_ok(self, ty, s):
        r = int_text(ty, s)
        if r is None:
            raise Unknown()
        return r

    def f(self, x):
        if x is TRUE or x is True:
            return True
        if x is FALSE or x is False:
            return False
        if type(x) is not Term:
            raise Unknown()
        o, a = x.op, x.args
        if o == "and":
            return all(self.f(y) for y in a)
        if o == "or":
            return any(self.f(y) for y in a)
        if o == "not":
            return not self.f(a[0])
        if o == "b":
            return bool(self.num(a[0]) >> a[1] & 1)
        if o == "in":
            n = self.num(a[0])
            return any(l <= n <= h for l, h in a[1])
        if o == "eqs":
            return all(self.f(p) == self.f(q) for p, q in a)
        if o == "xor":
            r = False
            for y in a:
                r ^= self.f(y)
            return r
        if o == "p":
            return self.p(*a)
        raise Unknown()

    def p(self, n, *a):
        if n in ("ends", "starts", "contains"):
            k, s = self.text(a[0]), self.text(a[1])
            return s.endswith(k) if n == "ends" else s.startswith(k) if n == "starts" else k in s
        if n == "bound":
            b = self.raw(a[0])
            return a[1] == len(b) or a[1] < len(b) and b[a[1]] & 0xc0 != 0x80
        if n in ("streq", "streqs"):
            return self.text(a[0]) == self.text(a[1])
        if n == "seqeq":
            return self.raw(a[0]) == self.raw(a[1])
        if n == "seqlt":
            return self.raw(a[0]) < self.raw(a[1])
        if n == "lt":
            return self.num(a[0]) < self.num(a[1])
        if n == "parse_ok":
            return self.parse_ok(a[0], self.text(a[1]))
        if n == "inlist":
            return self.text(a[1]) in core_index()[a[0]]
        if n == "ascii":
            return self.text(a[0]).isascii()
        if n == "b58chars":
            return set(self.text(a[0])) <= B58
        if n == "utf8ok":
            try:
                self.els(a[0]).decode()
                return True
            except UnicodeDecodeError:
                return False
        raise Unknown()


def byte_use(t, fs):
    """1 + the largest position at which single bytes of t are looked at"""
    n = 0
    seen = set()
    todo = list(fs)
    while todo:
        x = todo.pop()
        if type(x) is Term:
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "byte" and x.args[0] is t and type(x.args[1]) is int:
                n = max(n, x.args[1] + 1)
            todo += x.args
        elif isinstance(x, tuple):
            todo += x
    return n


def long_texts(fs):
    """texts longer than the lengths at which something is cut off"""
    out = []
    seen = set()
    todo = list(fs)
    while todo:
        x = todo.pop()
        if type(x) is Term:
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "trunc" and type(x.args[1]) is int and x.args[1] < 1 << 16:
                out.append("a" * (x.args[1] + 1))
            todo += x.args
        elif isinstance(x, tuple):
            todo += x
    return out


def core_tables():
    import vals
    return vals.TABLES


def core_index():
    import vals
    return vals.INDEX


POOL = ["", "m", "M", "0", "1", "a", "'", "/", "0'", "+1", "+", "-1", "4294967295", "4294967296", "2147483648", "2147483647", "00", "x", "é", "字", "h", " ", "zoo", "abandon",
        "\u0301", "ﬁ", "①", "A", "xprv", "1'", " zoo", "zoo ", "ZOO", "Zoo", "00000000001", "''", "'1"]


def mentions_lists(f):
    out = set()
    seen = set()
    todo = [f]
    while todo:
        x = todo.pop()
        if type(x) is Term:
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "p" and x.args[0] == "inlist":
                out.add(x.args[1])
            elif x.op == "widx":
                out.add(x.args[0])
            todo += x.args
        elif isinstance(x, tuple):
            todo += x
    return out


def candidates(t, lits):
    """texts worth trying for a root: pool, texts the conditions mention, and padded forms with lengths the conditions mention"""
    out = list(POOL)
    lens = set()
    ks = set()
    for f, v in lits:
        todo = [f]
        while todo:
            x = todo.pop()
            if isinstance(x, str) and len(x) < 60:
                ks.add(x)
            elif type(x) is Term:
                if x.op == "in" and type(x.args[0]) is Term and x.args[0].op in ("len", "lin", "bv"):
                    for l, h in x.args[1]:
                        lens |= {l, h, l - 1, h + 1}
                if x.op == "p" and x.args[0] == "bound":
                    lens |= {x.args[2], x.args[2] + 1, x.args[2] + 2}
                todo += x.args
            elif isinstance(x, tuple):
                todo += x
    ks -= {"ends", "starts", "bound", "streq", "streqs", "inlist", "parse_ok", "contains", "len", "en", "zh"}
    ks = sorted(ks, key=lambda s: (len(s), s))[:10]
    out += ks
    listed = sorted({x for f, v in lits for x in mentions_lists(f)})
    for w in [core_tables()[q][i] for q in listed for i in (0, 1024, 2047)]:
        out += [w] + [z for k in ks[:6] if k for z in (w + k, k + w)]
    short = [k for k in ks if 0 < len(k) < 8][:6]
    out += [a + b for a in short for b in short]
    for k in short:
        out += [k + k + "1", "1" + k + k, k + k + k, k + "0", k + k + "0", k + k + "1'", k + "1'", "1" + k + "'", "1" + k + k + "'", k + k + "0'"]
    for k in ks[:6]:
        out += [k + "1", "1" + k, "a" + k, "é" + k, k + "é", k + "a"]
    lens = sorted(n for n in lens if 0 < n <= 300)[:14]
    for n in lens:
        for suf in [""] + [k for k in ks if len(k.encode()) < n][:4]:
            r = n - len(suf.encode())
            for p in ("1", "a", "é", "字", "0", "z"):
                q = len(p.encode())
                out.append("a" * (r % q) + p * (r // q) + suf)
                if q > 1:
                    out.append(p * (r // q) + "a" * (r % q) + suf)
            if suf:
                out.append(suf + "1" * r)
                out.append(suf + "a" * r)
    out += long_texts([f for f, _ in lits])
    for k in [c for k in ks for c in k if not c.isalnum()][:6]:
        out += [k + "1", "1" + k, k]
    seen = set()
    res = []
    for s in out:
        if s in seen:
            continue
        seen.add(s)
        if t.op in WORD and (not s or any(ch in WS for ch in s)):
            continue
        if t.op == "elt" and "/" in s:
            continue
        res.append(s)
    return res


STEPS = 600000       # values worked out in one search


def cost(f):
    """how many terms a condition is made of"""
    seen = set()
    todo = [f]
    while todo and len(seen) < 5000:
        x = todo.pop()
        if type(x) is Term:
            if x.id not in seen:
                seen.add(x.id)
                todo += x.args
        elif isinstance(x, tuple):
            todo += x
    return len(seen)


def witness(g):
    """True when an assignment of the texts and numbers that the uncertain conditions of g are about satisfies all conditions about them"""
    conj = [(f, True) for f in g.conj()]
    rs = [roots(f, set()) for f, _ in conj]
    todo = set()
    for (f, _), r in zip(conj, rs):
        if has_soft(f):
            todo |= r
    if not todo:
        return False
    # connected conditions
    rel = set()
    while True:
        n = len(rel)
        for i, r in enumerate(rs):
            if i not in rel and r & todo:
                rel.add(i)
                todo |= r
        if len(rel) == n:
            break
    if len(todo) > 12:
        return False
    vs = {x for x in todo if x.op == "var"}
    for x in todo:
        if x.op != "var" and x.args[0] in vs:
            return False           # a text and its pieces at the same time
    order = sorted(todo, key=lambda t: t.id)
    conds = [(conj[i][0], rs[i]) for i in sorted(rel, key=lambda i: (cost(conj[i][0]), i))]
    lits = [(f, True) for f, _ in conds]
    texty = {}
    for t in order:
        if t.op == "var" and t.w:
            c = set()
            for l, h in g.term_ivs(t):
                c |= {l, h, l + 1, h - 1, (l + h) // 2}
            m = (1 << t.w) - 1
            c |= {0, 1, 2, 127, 128, 255, 1 << 31 & m, (1 << 31) - 1 & m, m}
            texty[t] = sorted(x for x in c if any(l <= x <= h for l, h in g.term_ivs(t)))
        else:
            n = byte_use(t, [f for f, _ in conds])
            texty[t] = candidates(t, lits)
            if n:
                ns = sorted({n} | {x for l, h in g.term_ivs(T("len", t, w=64)) for x in (l, h) if n <= x <= 4096})
                texty[t] = [p for m in ns for p in (bytes(m), bytes(range(1, 256))[:m].ljust(m, b"\x01"), b"\xff" * m)] + texty[t]
    budget = [40000]
    steps = [STEPS]

    def go(i, env):
        if i == len(order):
            return True
        t = order[i]
        mine = [f for f, r in conds if t in r and all(x in env or x is t for x in r)]
        for v in texty[t]:
            budget[0] -= 1
            if budget[0] < 0:
                return False
            env[t] = v
            e = Ev(env, steps)
            try:
                ok = all(e.f(f) for f in mine)
            except Unknown:
                ok = False
            if ok and go(i + 1, env):
                return True
        env.pop(t, None)
        return False
    try:
        return go(0, {})
    except (TooLong, Unknown, RecursionError, KeyError, IndexError, TypeError):
        return False


def has_soft(f):
    if type(f) is Term:
        if f.op in ("not", "and", "or"):
            return any(has_soft(x) for x in f.args)
        return bool(core.soft_atom(f))
    return False


def holds(g, env):
    """every condition of g is true under an assignment of all its inputs"""
    e = Ev(env)
    try:
        return all(e.f(f) for f in g.conj())
    except (Unknown, RecursionError, KeyError, IndexError, TypeError):
        return False
