"""Entry-point finding, abstract inputs and comparison of outcomes with a specification."""
import re
import time
import sys

from core import *
from interp import *
from vals import *
from stdm import Models

sys.setrecursionlimit(20000)


class Missing(Exception):
    """a public operation the property is about does not exist any more (gone), or exists in a form that is not analysed"""

    def __init__(self, what, gone=False):
        super().__init__(what)
        self.gone = gone


def last(n):
    n = n.split("<")[0].rstrip(":")
    return n.split("::")[-1]


def pk_parse(els):
    return T("pkparse", tuple(els))


def at(I):
    return place(I.fail_at or I.where())


def place(w):
    return " < ".join("%s:%s" % (x[0], x[1]) if isinstance(x, (list, tuple)) else str(x) for x in list(w)[:3])


class Result:
    """outcomes of one analysed entry point"""

    def __init__(self, what, inst, outs, interp, why=None):
        self.what, self.inst, self.I, self.why = what, inst, interp, why
        # outs: every way the entry point can end, or None when some path was not followed; partial: the ways that were followed
        self.outs = self.partial = outs
        if outs is not None and interp is not None and interp.lost:
            self.outs = None
            g, w, at = interp.lost[0]
            self.why = "%s [%s]%s" % (w, place(at), " (and %d more paths)" % (len(interp.lost) - 1) if len(interp.lost) > 1 else "")

    @property
    def panics(self):
        return self.I.panics


class OutOfTime(BaseException):
    """raised by the timer of the check; not an Exception so that the analyses do not swallow it"""


class Kit:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        self.functions = set()
        self.paths = 0
        self.began = time.monotonic()

    # ------------------------------------------------------------------ entry points
    def find(self, ty, name, trait=None, arg=None, opt=False):
        """root of a method of a type (or a free function when ty is None)"""
        c = []
        for r in self.p.roots:
            if r["name"] != name:
                continue
            s = r["self"]
            if ty is None:
                if s is not None:
                    continue
            else:
                if s is None or last(s.lstrip("&")) != ty:
                    continue
            if trait is None and r["trait"] is not None:
                continue
            if trait is not None and (r["trait"] is None or not re.search(trait, r["trait"])):
                continue
            if arg is not None and not any(re.search(arg, x) for x in r["in"]):
                continue
            c.append(r)
        if not c and trait is None and ty is not None:
            # a trait's provided method, or an inherent method that moved to a trait
            c = [r for r in self.p.roots if r["name"] == name and r["self"] and last(r["self"].lstrip("&")) == ty]
        if not c:
            if opt:
                return None
            raise Missing("%s%s%s" % (ty + "::" if ty else "", name, " (%s)" % trait if trait else ""),
                          not any(r["name"] == name for r in self.p.roots))
        c.sort(key=lambda r: (not r["insts"], r["n"]))
        return c[0]

    def inst(self, ty, name, trait=None, arg=None, which=0, opt=False):
        r = self.find(ty, name, trait, arg, opt)
        if r is None:
            return None
        if not r["insts"]:
            raise Missing(r["n"] + " has no analysable instance")
        return r["insts"][which]

    def adt_id(self, name, inst_of=None):
        for n, ids in self.p.adtty.items():
            if last(n) == name and n.startswith(self.p.d["crate"]):
                for i in ids:
                    if inst_of is None or inst_of in self.p.tstr(i):
                        return i
        raise Missing("type " + name)

    # ------------------------------------------------------------------ running
    def interp(self):
        I = Interp(self.p, Models())
        return I

    def run(self, inst, args, g=None, mem=None, I=None, what=None):
        I = I or self.interp()
        if I.deadline is None:
            # (never most of what a check may take for one run)
            left = 600 - (time.monotonic() - self.began)
            I.deadline = time.monotonic() + max(8, min(120, left / 3))
        st = State(g or Guard(), dict(mem or {}))
        info = self.p.insts[inst]
        what = what or info["n"]
        try:
            outs = I.call_inst(inst, list(args), st)
        except Undecided as e:
            self.functions |= I.seen_fns
            return Result(what, inst, None, I, "%s [%s]" % (e, at(I)))
        except Exception as e:
            self.functions |= I.seen_fns
            return Result(what, inst, None, I, "analyser: %s [%s]" % (crash(e), at(I)))
        self.functions |= I.seen_fns
        self.paths += len(outs) + len(I.panics)
        return Result(what, inst, outs, I)

    def render(self, inst, v, spec=None, g=None):
        """run a fmt method; outcomes are (state, text parts or None for an error)"""
        from fmtm import NOSPEC
        I = self.interp()
        st = State(g or Guard(), {})
        o = I.newtmp(st, ("fmtr", ("str", ()), spec or NOSPEC))
        info = self.p.insts[inst]
        try:
            outs = I.call_inst(inst, [v, ("&m", o, ())], st)
        except Undecided as e:
            return Result(info["n"], inst, None, I, "%s [%s]" % (e, at(I)))
        except Exception as e:
            return Result(info["n"], inst, None, I, "analyser: %s [%s]" % (crash(e), at(I)))
        self.functions |= I.seen_fns
        self.paths += len(outs) + len(I.panics)
        res = []
        for s, r in outs:
            w = s.mem.get(o)
            t = w[1] if w and w[0] == "fmtr" else top("text")
            res.append((s, ("tup", (r, t))))
        return Result(info["n"], inst, res, I)

    # ------------------------------------------------------------------ sizes worth looking at
    def constants(self, inst):
        """integer constants of the crate's own code that an entry point may run"""
        seen, todo, out, strs, cases = set(), [inst], set(), set(), set()
        crate = self.p.d["crate"]

        def walk(v):
            if isinstance(v, list):
                if len(v) == 5 and v[0] == "switch":
                    for y in v[2]:
                        if str(y[0]).isdigit() and int(y[0]) > 31:
                            cases.add(int(y[0]))
                for y in v:
                    walk(y)
            elif isinstance(v, dict):
                if "int" in v and isinstance(v["int"], (int, str)):
                    try:
                        out.add(int(v["int"]))
                    except ValueError:
                        pass
                if isinstance(v.get("str"), str) and "k" not in v:
                    strs.add(v["str"])
                if isinstance(v.get("inst"), int):
                    todo.append(v["inst"])
                for y in v.values():
                    if isinstance(y, (list, dict)):
                        walk(y)
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            x = self.p.insts[i]
            if x["krate"] != crate or not x["body"]:
                continue
            for t in x["body"]["locals"]:
                ty = self.p.types[t]
                if isinstance(ty.get("inst"), int):
                    todo.append(ty["inst"])
            walk(x["body"]["blocks"])
        self.mentioned[inst] = (out | cases, strs)
        return {c for c in out if 2 <= c <= 1 << 24}

    def sizes(self, inst, cap):
        """sizes at which code with these constants may change its behaviour"""
        cs = self.constants(inst)
        cs = sorted({c for c in cs | {1 << c for c in cs if c <= 30} if c <= cap})
        base = set(cs)
        if len(cs) <= 24:
            base |= {a * b for a in cs for b in cs if a * b <= cap}
        return sorted({n for c in base for n in (c - 1, c, c + 1) if n <= cap + 1})

    def texts(self, inst, cap=24):
        """characters and short texts that the crate's own code behind an entry point mentions"""
        self.constants(inst)
        ints, strs = self.mentioned[inst]
        out = [chr(c) for c in sorted(ints) if 9 <= c < 0x110000 and not 0xD800 <= c < 0xE000 and chr(c).isprintable() or c in (9, 10, 13, 0xFEFF, 0x200B)]
        out += sorted(s for s in strs if 0 < len(s) <= 12)
        out = list(dict.fromkeys(out))
        # (those beyond ASCII first: nobody else tries them)
        return sorted(out, key=lambda t: t.isascii())[:cap]

    mentioned = {}

    # ------------------------------------------------------------------ values
    def field_tys(self, ti, v=0):
        return self.p.types[ti]["vars"][v]["f"]

    def lang(self, name):
        ti = self.adt_id("Language")
        for i, v in enumerate(self.p.types[ti]["vars"]):
            if v["n"] == name:
                return ("adt", ti, i, ())
        raise Missing("Language::" + name)

    def langs(self):
        ti = self.adt_id("Language")
        return [(v["n"], ("adt", ti, i, ())) for i, v in enumerate(self.p.types[ti]["vars"])]

    def mtypes(self):
        ti = self.adt_id("MnemonicType")
        return [(v["n"], ("adt", ti, i, ())) for i, v in enumerate(self.p.types[ti]["vars"])]

    def mtype(self, n):
        for k, v in self.mtypes():
            if k == n:
                return v
        raise Missing("MnemonicType::" + n)

    def child(self, x):
        ti = self.adt_id("ChildNumber")
        if len(self.field_tys(ti)) != 1:
            raise Undecided("representation of ChildNumber")
        return ("adt", ti, 0, (x,))

    def sk(self, name):
        return ("adt", "libsecp256k1::SecretKey", 0, (arr(byte_terms(T("var", name), 32)),))

    def pk(self, x):
        return ("adt", "libsecp256k1::PublicKey", 0, (x,))

    def by_type(self, ti, chooser):
        fs = []
        for n, t, _ in self.field_tys(ti):
            v = chooser(n, self.p.types[t], self.p.tstr(t))
            if v is None:
                raise Undecided("representation of " + self.p.tstr(ti) + ": field " + n)
            fs.append(v)
        return ("adt", ti, 0, tuple(fs))

    def attrs(self, depth, fp, cn, cc):
        ti = self.adt_id("ExtendedKeyAttrs")
        d = {"depth": depth, "parent_fingerprint": arr(fp), "child_number": self.child(cn), "chain_code": arr(cc)}
        return self.by_type(ti, lambda n, t, s: d.get(n))

    def sym_attrs(self, tag, depth=None):
        return self.attrs(tv(T("var", tag + ".depth", w=8)) if depth is None else depth,
                          byte_terms(T("var", tag + ".fp"), 4),
                          tv(T("var", tag + ".cn", w=32)),
                          byte_terms(T("var", tag + ".cc"), 32))

    def xprv(self, tag, sk=None, attrs=None):
        ti = self.adt_id("ExtendedPrivateKey", "libsecp256k1::SecretKey")

        def ch(n, t, s):
            if s == "libsecp256k1::SecretKey":
                return sk or self.sk(tag + ".sk")
            if last(s) == "ExtendedKeyAttrs":
                return attrs or self.sym_attrs(tag)
            return self.phantom(t, s)
        return self.by_type(ti, ch)

    def xpub(self, tag, pk=None, attrs=None):
        ti = self.adt_id("ExtendedPublicKey", "libsecp256k1::PublicKey")

        def ch(n, t, s):
            if s == "libsecp256k1::PublicKey":
                return pk or self.pk(T("pkparse", byte_terms(T("var", tag + ".pk"), 33)))
            if last(s) == "ExtendedKeyAttrs":
                return attrs or self.sym_attrs(tag)
            return self.phantom(t, s)
        return self.by_type(ti, ch)

    def phantom(self, t, s):
        if "PhantomData" in s:
            return ("adt", "core::marker::PhantomData", 0, ())
        return None

    def prefix(self, chars, version):
        ti = self.adt_id("Prefix")

        def ch(n, t, s):
            if t["k"] == "array":
                return arr(chars)
            if s == "u32":
                return version
            return None
        return self.by_type(ti, ch)

    def sym_prefix(self, tag):
        return self.prefix(byte_terms(T("var", tag + ".chars"), 4), tv(T("var", tag + ".ver", w=32)))

    def ext(self, prefix, attrs, key):
        ti = self.adt_id("ExtendedKey")
        d = {"prefix": prefix, "attrs": attrs, "key_bytes": arr(key)}
        return self.by_type(ti, lambda n, t, s: d.get(n))

    def path(self, cns):
        ti = self.adt_id("DerivationPath")

        def ch(n, t, s):
            if "Vec<" in s and "ChildNumber" in s:
                return arr(tuple(self.child(c) for c in cns))
            return None
        return self.by_type(ti, ch)

    def seed(self, els):
        ti = self.adt_id("Seed")

        def ch(n, t, s):
            if "u8" in s and ("Vec<" in s or t["k"] == "array"):
                return self.wrapz(t, s, arr(els))
            return None
        return self.by_type(ti, ch)

    def wrapz(self, t, s, v):
        """value of type s, possibly Zeroizing<...>"""
        if s.startswith("zeroize::Zeroizing<"):
            return ("adt", t["id"], 0, (v,)) if t.get("vars") else v
        return v

    def p_const(self, c):
        """value of a crate constant"""
        if c["val"] is None:
            raise Undecided("constant " + c["n"])
        return self.interp().const(c["val"], c["ty"])

    # ------------------------------------------------------------------ reading results
    def fields(self, v):
        """{field name: value} of an abstract struct"""
        if isinstance(v, tuple) and v[0] in ("&", "box"):
            return self.fields(v[1])
        if isinstance(v, tuple) and v[0] == "adt" and isinstance(v[1], int):
            vs = self.p.types[v[1]]["vars"][v[2]]["f"]
            return {f[0]: x for f, x in zip(vs, v[3])}
        return None

    def get(self, I, s, v, ty, meth, trait=None):
        """what an accessor returns on v in state s: exactly one outcome expected"""
        inst = self.inst(ty, meth, trait)
        outs = I.call_whole(inst, [("&", v)], s)
        if len(outs) != 1:
            raise Undecided("accessor %s::%s has %d outcomes" % (ty, meth, len(outs)))
        return I.full(outs[0][0], outs[0][1])


def unwrap(v):
    """('ok', value) / ('err', error) / ('some', v) / ('none',) / None"""
    while isinstance(v, tuple) and v and v[0] in ("&", "box"):
        v = v[1]
    if isinstance(v, tuple) and v and v[0] == "adt":
        if v[1] == "core::result::Result":
            return ("ok", v[3][0]) if v[2] == 0 else ("err", v[3][0])
        if v[1] == "core::option::Option":
            return ("none",) if v[2] == 0 else ("some", v[3][0])
    return None
