"""Wiping of secret values and scratch copies (C43): destructors are interpreted, and the memory of every frame is examined when it returns."""
import re

from spec import *
from p4 import leaves
import kit as kitm

BUF = re.compile(r"^(\[u8; |((core|std)::mem::|core::mem::manually_drop::|core::mem::maybe_uninit::)?(ManuallyDrop|MaybeUninit)<|(alloc|std)::(vec::Vec<u8|string::String|boxed::Box<\[u8\]|boxed::Box<str)|(Vec<u8|String$|Box<\[u8\]))")
SHARED = ("alloc::rc::Rc", "alloc::sync::Arc", "core::mem::manually_drop::ManuallyDrop", "core::mem::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit", "core::mem::MaybeUninit")


class Wiping(Interp):
    """an interpreter that runs destructors and keeps the storage of a frame until it returns"""

    def __init__(self, *a):
        super().__init__(*a)
        self.run_drops = "keep"
        self.wiped, self.leftover, self.frames = [], [], []
        self.ret_hook = Wiping.at_return

    def operand(self, st, fid, op):
        v = super().operand(st, fid, op)
        if op[0] == "m" and len(op[1]) == 1:
            st.mem.pop((fid, op[1][0]), None)
        return v

    def drop_place(self, st, fid, body, t):
        r = self.locate(st, fid, t[1])
        if r[0] == "val":
            return [st]
        return self.drop_value(st, ("&m", r[1], r[2]), t[3])

    def drop_value(self, st, r, ti):
        """states after the destructor of the value of type ti at r has run"""
        t = self.p.types[ti]
        if t["k"] == "array":
            v = self.read(st, r[1], r[2])
            out = [st]
            if t.get("nd") and is_arr(v):
                for i in range(len(v[1])):
                    out = [s2 for s in out for s2 in self.drop_value(s, ("&m", r[1], r[2] + (("i", i),)), t["t"])]
            return out
        if t["k"] == "tuple":
            out = [st]
            for i, x in enumerate(t["ts"]):
                out = [s2 for s in out for s2 in self.drop_value(s, ("&m", r[1], r[2] + (i,)), x)]
            return out
        if t["k"] != "adt":
            return [st]
        if t["n"].endswith("::Zeroizing"):
            v = self.read(st, r[1], r[2])
            self.wiped.append(v)
            inner = self.p.tstr(t["args"][0]) if t["args"] else ""
            self.write(st, r, self.models.zero(self.full(st, v), "Vec<" in inner or "String" in inner))
            return [st]
        out = [st]
        if type(t["drop"]) is int and t["drop"] is not True:
            out = [s for s, _ in self.call_inst(t["drop"], [r], st)]
        if t["n"] in SHARED or not t.get("nd"):
            return out
        res = []
        for s in out:
            v = self.read(s, r[1], r[2])
            if not (isinstance(v, tuple) and v and v[0] == "adt") or not t.get("vars") or v[2] >= len(t["vars"]):
                res.append(s)
                continue
            cur = [s]
            for i, f in enumerate(t["vars"][v[2]]["f"]):
                cur = [s2 for s1 in cur for s2 in self.drop_value(s1, ("&m", r[1], r[2] + (i,)), f[1])]
            res += cur
        return res

    def call_named(self, st, inst, name, targs, krate, args, argtys=None, destty=None):
        seg = last(name)
        if krate == "zeroize" and seg == "zeroize":
            self.wiped.append(self.full(st, args[0]))
        if krate in ("core", "std", "alloc") and re.search(r"mem::(drop|forget)$", name) and argtys:
            if seg == "forget" or BUF.search(self.p.tstr(argtys[0])):
                self.leftover.append((self.stack[-1][0], "value given to mem::%s" % seg, self.full(st, args[0])))
            else:
                o = self.newtmp(st, args[0])
                return [(s, UNIT) for s in self.drop_value(st, ("&m", o, ()), argtys[0])]
        return super().call_named(st, inst, name, targs, krate, args, argtys, destty)

    def at_return(self, inst, body, fid, st, ret):
        info = self.p.insts[inst]
        if info["krate"] != self.p.d["crate"]:
            return
        v = unwrap(self.full(st, ret))
        if v and v[0] == "err":
            return
        for i, ti in enumerate(body["locals"]):
            x = st.mem.get((fid, i))
            if i and x is not None and BUF.search(self.p.tstr(ti)):
                self.frames.append((info["n"], "local variable _%d: %s" % (i, self.p.tstr(ti)), x, self.full(st, ret), st.g))


def containers(v, path=(), out=None):
    """(path, value) of every array of bytes and text in a value"""
    out = [] if out is None else out
    if is_arr(v) and (not v[1] or type(v[1][0]) is int or isinstance(v[1][0], Term)) or is_str(v):
        out.append((path, v))
    elif is_arr(v):
        for i, x in enumerate(v[1]):
            containers(x, path + (("i", i),), out)
    elif isinstance(v, tuple) and v and v[0] == "adt":
        for i, x in enumerate(v[3]):
            containers(x, path + (i,), out)
    elif isinstance(v, tuple) and v and v[0] == "tup":
        for i, x in enumerate(v[1]):
            containers(x, path + (i,), out)
    elif isinstance(v, tuple) and v and v[0] in ("box",):
        containers(v[1], path + ("b",), out)
    return out


def part_of(x, v):
    """the container x is one of the containers of v"""
    return any(y == x or is_arr(y) and is_arr(x) and any(y[1][i:i + len(x[1])] == x[1] for i in range(len(y[1]) - len(x[1]) + 1)) for _, y in containers(strip(v)))


def zeroed(v, n):
    return is_arr(v) and len(v[1]) == n and all(x == 0 and type(x) is int for x in v[1])


def wipes(c, label, ti, v, secret, st=None):
    """dropping the value v of type ti overwrites every container with a secret leaf"""
    k = c.k
    I = Wiping(k.p, k.interp().models)
    st = st or State(Guard(), {})
    v = I.full(st, v)
    o = I.newtmp(st, v)
    t = k.p.types[ti]
    key = "dropping " + label
    mine = [(p, x) for p, x in containers(v) if secret(x)]
    c.entries.append(("drop of " + k.p.tstr(ti), key, len(mine), 0))
    if not mine:
        c.unsure(key, "the value made for the analysis holds no secret: %s" % text_of(v, 200))
        return
    try:
        outs = I.drop_value(st, ("&m", o, ()), ti)
        if I.lost:
            raise Undecided(I.lost[0][1])
    except Undecided as e:
        c.unsure(key, str(e))
        return
    k.functions |= I.seen_fns
    k.paths += len(outs)
    done = []
    for s in outs:
        for p, x in mine:
            try:
                y = I.full(s, I.read(s, o, p))
            except (Undecided, IndexError, KeyError, TypeError):
                y = ("arr", ())
            n = len(x[1]) if is_arr(x) else None
            left = [e for e in (y[1] if is_arr(y) or is_str(y) else ()) if secret(e)]
            if has_top(y):
                c.unsure(key, "memory after the drop not known: %s" % (has_top(y),))
                return
            if left:
                c.bad(key, "%s still holds %s afterwards" % (field_name(k, ti, p), text_of(("arr", tuple(left)), 120)))
                return
            if n is not None and zeroed(y, n) or any(w == x or is_arr(w) and is_arr(x) and w[1] and x[1][:len(w[1])] == w[1] for w in I.wiped):
                done.append(field_name(k, ti, p))
                continue
            if any(is_arr(w) and w[1] == () or is_str(w) and w[1] == () for w in I.wiped):
                c.unsure(key, "%s is emptied before it is overwritten" % field_name(k, ti, p))
                return
            c.bad(key, "%s is emptied without being overwritten" % field_name(k, ti, p))
            return
    c.ok(key, "overwritten: %s" % ", ".join(sorted(set(done))))


def field_name(k, ti, path):
    out = []
    for p in path:
        t = k.p.types[ti]
        if type(p) is int and t["k"] == "adt" and t.get("vars"):
            f = t["vars"][0]["f"][p]
            out.append(f[0])
            ti = f[1]
        else:
            break
    return "field " + ".".join(out) if out else "the value"


def scratch(c, label, inst, args, secret, of_result=None):
    """no buffer of a frame holds key material when the frame returns successfully"""
    k = c.k
    I = Wiping(k.p, k.interp().models)
    r = k.run(inst, args, I=I)
    examine(c, label, r, I, secret, of_result)


def examine(c, label, r, I, secret, of_result=None):
    c.entries.append((r.what, label, len(r.outs or ()), len(I.panics)))
    if r.partial is None:
        c.unsure(label, r.why)
        return
    if of_result:
        keys = set()
        for s, v in r.partial:
            u = unwrap(I.full(s, v))
            if u and u[0] == "ok":
                keys |= set(of_result(I.full(s, u[1])))
        if not keys:
            c.unsure(label, "no successful outcome")
            return
        secret = lambda x: any(e in keys for e in terms(x))
    seen, n = set(), 0
    for s, v in r.partial:
        v = unwrap(I.full(s, v))
        if v and len(v) > 1 and has_top(v[1]):
            c.unsure(label, "result not known: %s" % (has_top(v[1]),))
            return
    for fn, what, x, ret, g in I.frames:
        if istop(x) and x[1] != "uninitialised":
            c.unsure(label, "content of %s of %s not known: %s" % (what, fn, x[1]))
            return
    for fn, what, x, ret, g in I.frames:
        n += 1
        if secret(x) and not (what.split(": ")[1].startswith("[") and part_of(x, ret)) and (fn, what) not in seen and g.feasible():
            if g.soft():
                c.unsure(label, "%s of %s may keep key material" % (what, fn))
                return
            seen.add((fn, what))
            c.bad(label, "when %s returns, its %s still holds key material: %s" % (fn, what, text_of(x, 160)))
    for fn, what, x in I.leftover:
        if secret(x) and (fn, what) not in seen:
            seen.add((fn, what))
            c.bad(label, "%s: %s holds key material and is not overwritten" % (fn, what))
    if r.outs is None:
        c.unsure(label, r.why)
    elif not seen:
        c.ok(label, "%d buffers examined at %d returns, none keeps key material" % (n, len({f[0] for f in I.frames})))


def terms(v):
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if type(x) is Term:
            out.append(x)
        elif isinstance(x, (tuple, list)):
            todo += x
    return out


def c43(c):
    from p39 import B39
    k = c.k
    b = B39(k)
    on = lambda *names: (lambda x: bool(leaves(x) & set(names)))
    # destructors
    for ln, l in k.langs():
        for m in (16, 32):
            try:
                st, v = b.mnemonic(byte_terms(T("var", "e"), m), l)
                wipes(c, "a mnemonic of %d bytes, %s" % (m, ln), k.adt_id("Mnemonic"), v, on("e"), st)
            except (Unsure, Undecided) as e:
                c.unsure("dropping a mnemonic, " + ln, str(e))
        try:
            st, v = b.imported(12, l)
            wipes(c, "an imported mnemonic, %s" % ln, k.adt_id("Mnemonic"), v, lambda x: bool(leaves(x)), st)
        except (Unsure, Undecided) as e:
            c.unsure("dropping an imported mnemonic, " + ln, str(e))
    wipes(c, "a seed", k.adt_id("Seed"), k.seed(byte_terms(T("var", "d.seed"), 64)), on("d.seed"))
    # an arbitrary private prefix: any first character and version, then "prv"
    px = k.prefix((byte_terms(T("var", "px.chars"), 4)[0], 112, 114, 118), tv(T("var", "px.ver", w=32)))
    ext = lambda tag: k.ext(px, k.sym_attrs(tag), byte_terms(T("var", tag + ".kb"), 33))
    wipes(c, "a serialized extended key", k.adt_id("ExtendedKey"), ext("d"), on("d.kb"))
    ts = k.inst("ExtendedPrivateKey", "to_string")
    out = k.p.insts[ts]["body"]["locals"][0]
    wipes(c, "the text of a serialized private key", out, string(T("var", "d.text")), on("d.text"))
    # scratch buffers
    own = on("d.kb", "a.sk", "b.sk")
    buf = lambda I, st: I.newtmp(st, arr(byte_terms(T("var", "out"), 112)))
    inst = k.inst("ExtendedKey", "write_base58")
    I = Wiping(k.p, k.interp().models)
    st = State(Guard(), {})
    o = buf(I, st)
    r = k.run(inst, [ref(ext("d")), ("&m", o, ())], mem=st.mem, I=I)
    examine(c, "write_base58", r, I, own)
    for root in k.p.roots:
        if root["trait"] and root["trait"].endswith("fmt::Display") and last(root["self"] or "") == "ExtendedKey" and root["insts"]:
            from fmtm import NOSPEC
            I = Wiping(k.p, k.interp().models)
            st = State(Guard(), {})
            o = I.newtmp(st, ("fmtr", ("str", ()), NOSPEC))
            r = k.run(root["insts"][0], [ref(ext("d")), ("&m", o, ())], mem=st.mem, I=I)
            examine(c, "Display of a serialized key", r, I, own)
    a, b2 = k.xprv("a"), k.xprv("b")
    scratch(c, "to_extended_key", k.inst("ExtendedPrivateKey", "to_extended_key"), [ref(a), px], own)
    scratch(c, "to_string", ts, [ref(a), px], own)
    for n in ("ct_eq", "eq"):
        try:
            i = k.inst("ExtendedPrivateKey", n)
        except Missing:
            continue
        scratch(c, n, i, [ref(a), ref(b2)], own)
    text = ref(string(T("var", "text")))
    for n in ("ExtendedKey", "ExtendedPrivateKey"):
        i = k.inst(n, "from_str")
        scratch(c, n + "::from_str", i, [text], None, of_result=lambda v, n=n: keybytes(k, n, v))
    i = k.inst("ExtendedPrivateKey", "try_from")
    scratch(c, "typed import", i, [ext("d")], own)


def keybytes(k, n, v):
    t = k.p.types[k.adt_id(n)] if isinstance(v, tuple) else None
    names = [f[0] for f in t["vars"][0]["f"]]
    f = "key_bytes" if n == "ExtendedKey" else "private_key"
    return terms(v[3][names.index(f)]) if f in names else []
