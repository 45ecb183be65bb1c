"""Derivation paths as lists (C34); copies, comparisons and defaults of the public value types (C35)."""
from spec import *
from p32 import B32, Sym
from p39 import B39, langs, encode, decode


def numbers(k, I, st, v):
    """[(state, (u32 of each child number in order))] of a path, read through its public iterator"""
    out = []
    for s, it in I.call_whole(k.inst("DerivationPath", "iter"), [ref(v)], st):
        it = I.models.to_iter(I, s, it) if not (isinstance(it, tuple) and it and it[0] == "it") else it
        for s2, xs in I.models.items(I, s, it):
            out.append((s2, tuple(child32(k, I, s2, x) for x in xs)))
    return out


def child32(k, I, s, x):
    x = I.full(s, x)
    while isinstance(x, tuple) and x and x[0] in ("&", "box"):
        x = x[1]
    outs = I.call_whole(k.inst("u32", "from", r"From<.*ChildNumber"), [x], s)
    if len(outs) != 1:
        raise Unsure("u32 of a child number has %d outcomes" % len(outs))
    return I.full(outs[0][0], outs[0][1])


def lists(k, g, s, v, want, what):
    """the path v lists exactly the numbers of want"""
    I = k.interp()
    for s2, xs in numbers(k, I, State(g, s.mem), I.full(s, v)):
        if len(xs) != len(want):
            raise Fail("%s: %d elements instead of %d" % (what, len(xs), len(want)))
        for i, (x, y) in enumerate(zip(xs, want)):
            same(s2.g, x, y, "%s: element %d" % (what, i))


def c34(c):
    k = c.k
    P34 = "DerivationPath"

    def syms(n, t="i"):
        return [tv(T("var", "%s%d" % (t, j), w=32)) for j in range(n)]

    def items(want, what):
        def e(cc, g, s, v):
            I = k.interp()
            st = State(g, s.mem)
            v = strip(I.full(s, v))
            if is_arr(v):
                got = [(st, v[1])]
            elif isinstance(v, tuple) and v and v[0] == "it":
                got = I.models.items(I, st, v)
            else:
                raise Unsure("%s: %s" % (what, text_of(v)))
            for s2, xs in got:
                if len(xs) != len(want):
                    raise Fail("%s: %d elements instead of %d" % (what, len(xs), len(want)))
                for i, (x, y) in enumerate(zip(xs, want)):
                    same(s2.g, child32(k, I, s2, x), y, "%s: element %d" % (what, i))
        return e

    def path(want, what):
        return lambda cc, g, s, v: lists(k, g, s, v, want, what)

    def on(i, v, *args):
        """run a method taking &mut; the object's id and the result"""
        I = k.interp()
        st = State(Guard(), {})
        o = I.newtmp(st, v)
        return o, k.run(i, [("&m", o, ())] + list(args), mem=st.mem, I=I)

    def after(r, o, want, what):
        return lambda cc, g, s, v: lists(k, g, s, s.mem[o], want, what)

    sizes = (0, 1, 2, 3, 4, 40) if c.tier == "quick" else tuple(range(0, 18)) + (32, 33, 40, 64, 65, 128, 255, 256, 257)
    for nm, tr in (("len", None), ("is_empty", None), ("iter", None), ("into_iter", "IntoIterator"), ("as_ref", r"AsRef<\["), ("parent", None), ("clone", "Clone")):
        inst = k.inst(P34, nm, tr)
        own = sorted(set(sizes) | set(k.sizes(inst, 300)))
        for n in own:
            xs = syms(n)
            v = k.path(xs)
            label = "%s of a path of %d" % (nm, n)
            r = k.run(inst, [v if nm == "into_iter" else ref(v)])
            exp = {"len": ret(n, "length"), "is_empty": ret(TRUE if n == 0 else FALSE, "emptiness"), "iter": items(xs, "iter"), "into_iter": items(xs, "into_iter"),
                   "as_ref": items(xs, "as_ref"), "clone": path(xs, "copy"),
                   "parent": is_none if n == 0 else okv(path(xs[:-1], "parent"))}[nm]
            c.decide(label, r, [(TRUE, exp)])
    inst = k.inst(P34, "push")
    for n in sorted(set(sizes) | set(k.sizes(inst, 300))):
        xs, y = syms(n), tv(T("var", "y", w=32))
        o, r = on(inst, k.path(xs), k.child(y))
        c.decide("push onto a path of %d" % n, r, [(TRUE, after(r, o, xs + [y], "path"))])
    root = k.find(P34, "extend", "Extend")
    if not root["insts"]:
        c.unsure("extend", "no analysable instance")
    for i in root["insts"]:
        ts = k.p.tstr(k.p.insts[i]["body"]["locals"][2]) if k.p.insts[i]["body"] else "?"
        big = sorted(set(k.sizes(i, 300)) - {0, 1, 3})
        for n in [0, 1, 3] + big:
            for m in (0, 1, 2, 5, 33) if n < 4 else (1, 3):
                xs, ys = syms(n), syms(m, "j")
                if last(ts) == "DerivationPath":
                    arg = k.path(ys)
                elif "Vec<" in ts or ts.startswith("["):
                    arg = arr(tuple(k.child(y) for y in ys))
                else:
                    continue
                if ts.startswith("[") and not ts.endswith("; %d]" % m):
                    continue
                o, r = on(i, k.path(xs), arg)
                c.decide("extend a path of %d by %d (%s)" % (n, m, ts), r, [(TRUE, after(r, o, xs + ys, "path"))])
    d = k.inst(P34, "default", "Default", opt=True)
    if d is not None:
        c.decide("default", k.run(d, []), [(TRUE, path([], "default path"))])
    e = k.inst(P34, "eq", "PartialEq", opt=True)
    if e is not None:
        for n in (0, 1, 2, 3, 9):
            for m in (0, 1, 2, 3, 9):
                xs, ys = syms(n), syms(m, "j")
                want = And(*[eq(x, y, 32) for x, y in zip(xs, ys)]) if n == m else FALSE
                c.decide("== of paths of %d and %d" % (n, m), k.run(e, [ref(k.path(xs)), ref(k.path(ys))]), [(TRUE, ret(want, "equality"))])


def is_none(c, g, s, v):
    u = unwrap(v)
    if u is None:
        raise Unsure("result is " + text_of(v))
    if u[0] != "none":
        raise Fail("returns %s where None is required" % text_of(v, 120))


# ------------------------------------------------------------------ C35
ORD = {-1: "Less", 0: "Equal", 1: "Greater"}


def order_of(v):
    v = strip(v)
    u = unwrap(v)
    if u is not None and u[0] == "some":
        v = strip(u[1])
    elif u is not None:
        raise Fail("partial_cmp returns None")
    if isinstance(v, tuple) and v and v[0] == "adt" and last(str(v[1])) == "Ordering":
        return v[2] - 1
    raise Unsure("result is " + text_of(v))


def is_order(n):
    def e(c, g, s, v):
        got = order_of(v)
        if got != n:
            raise Fail("%s where %s is required" % (ORD[got], ORD[n]))
    return e


def not_equal(c, g, s, v):
    if order_of(v) == 0:
        raise Fail("Equal for values that differ")


def against(outs, sign, what):
    """the outcome must be sign times the outcome of another run under the same inputs"""
    def e(c, g, s, v):
        got = order_of(v)
        for s2, w in outs:
            gs = [g]
            for f in s2.g.conj():
                gs = [h for x in gs for h in x.assume(f)]
            want = sign * order_of(w)
            for h in gs:
                if got != want and h.feasible():
                    m = "%s where %s gives %s" % (ORD[got], what, ORD[order_of(w)])
                    if h.soft():
                        raise Unsure(m)
                    raise Fail(m)
    return e


def c35(c):
    k, b = c.k, B32(c.k)
    x, y = tv(T("var", "x", w=32)), tv(T("var", "y", w=32))

    def parts(ty, v):
        """formula that two symbolic values have the same components"""
        raise KeyError

    def copy(label, ty, v, exp, g=None, mem=None):
        i = k.inst(ty, "clone", "Clone", opt=True)
        if i is not None:
            c.decide("clone of " + label, k.run(i, [ref(v)], g=g, mem=mem), [(TRUE, exp)])

    def compare(label, ty, v, w, want, full=True):
        i = k.inst(ty, "eq", "PartialEq", opt=True)
        if i is not None:
            c.decide("== of " + label, k.run(i, [ref(v), ref(w)]), [(TRUE, ret(want, "equality"))])
        i = k.inst(ty, "ne", "PartialEq", opt=True)
        if i is not None:
            c.decide("!= of " + label, k.run(i, [ref(v), ref(w)]), [(TRUE, ret(Not(want), "inequality"))])
        i, p = k.inst(ty, "cmp", "Ord$", opt=True), k.inst(ty, "partial_cmp", "PartialOrd", opt=True)
        if i is None or not full:
            return
        r = k.run(i, [ref(v), ref(w)])
        c.decide("cmp of %s: Equal exactly when ==" % label, r, [(want, is_order(0)), (Not(want), not_equal)])
        back = k.run(i, [ref(w), ref(v)])
        if back.outs is None:
            c.unsure("cmp of " + label, back.why)
            return
        c.decide("cmp of %s: reversed when the arguments are" % label, r, [(TRUE, against([(s, back.I.full(s, q)) for s, q in back.outs], -1, "the reverse comparison"))])
        if p is not None and r.outs is not None:
            c.decide("partial_cmp of %s" % label, k.run(p, [ref(v), ref(w)]), [(TRUE, against([(s, r.I.full(s, q)) for s, q in r.outs], 1, "cmp"))])

    def exactly(v, what="copy"):
        return lambda cc, g, s, got: same(g, got, v, what)
    # child numbers
    v, w = k.child(x), k.child(y)
    copy("a child number", "ChildNumber", v, lambda cc, g, s, got: same(g, b.cn_u32(k.interp(), State(g, s.mem), got), x, "copy"))
    compare("child numbers", "ChildNumber", v, w, eq(x, y, 32))
    for nm, tr in (("cmp", "Ord$"), ("partial_cmp", "PartialOrd")):
        i = k.inst("ChildNumber", nm, tr, opt=True)
        if i is not None:
            c.decide("%s of child numbers is that of their 32-bit values" % nm, k.run(i, [ref(v), ref(w)]),
                     [(ult(x, y, 32), is_order(-1)), (eq(x, y, 32), is_order(0)), (ult(y, x, 32), is_order(1))])
            for p, q in ((0, 1), (1, 0), (0x7fffffff, 0x80000000), (0x80000000, 1), (0xffffffff, 0x7fffffff), (256, 1), (1, 256)):
                c.decide("%s of child numbers %#x and %#x" % (nm, p, q), k.run(i, [ref(k.child(p)), ref(k.child(q))]), [(TRUE, is_order(-1 if p < q else 1))])
    # attributes, prefixes, keys
    p, q = Sym(k, "p"), Sym(k, "q")
    P, Q = k.sym_attrs("p"), k.sym_attrs("q")
    alike = And(eq(p.depth, q.depth, 8), els_eq(p.fp, q.fp), eq(p.cn, q.cn, 32), els_eq(p.cc, q.cc))
    copy("key attributes", "ExtendedKeyAttrs", P, lambda cc, g, s, got: b.same_attrs(g, s, got, p.depth, p.fp, p.cn, p.cc, "copy"))
    compare("key attributes", "ExtendedKeyAttrs", P, Q, alike)
    X, Y = k.sym_prefix("x"), k.sym_prefix("y")
    vx, vy = tv(T("var", "x.ver", w=32)), tv(T("var", "y.ver", w=32))
    cx, cy = byte_terms(T("var", "x.chars"), 4), byte_terms(T("var", "y.chars"), 4)
    copy("a prefix", "Prefix", X, exactly(X))
    compare("prefixes", "Prefix", X, Y, And(els_eq(cx, cy), eq(vx, vy, 32)))
    E = k.ext(X, P, byte_terms(T("var", "kb"), 33))
    copy("an extended key", "ExtendedKey", E, exactly(E))
    copy("an extended private key", "ExtendedPrivateKey", p.v, lambda cc, g, s, got: b.same_xprv(g, s, got, p.key, p.depth, p.fp, p.cn, p.cc, "copy"))
    u, t = Sym(k, "u", pub=True), Sym(k, "t", pub=True)
    copy("an extended public key", "ExtendedPublicKey", u.v, lambda cc, g, s, got: b.same_xpub(g, s, got, u.pk, u.depth, u.fp, u.cn, u.cc, "copy"))
    i = k.inst("ExtendedPublicKey", "eq", "PartialEq", opt=True)
    if i is not None:
        pubs(c, k, i)
    # plain enums
    for ty in ("Language", "MnemonicType", "Error"):
        ids = [n for n in k.p.adtty if last(n) == ty and n.startswith(k.p.d["crate"])]
        try:
            vals = variants(k, ty, "bip32" if ty == "Error" else None)
        except (Missing, Undecided) as e:
            c.unsure(ty, str(e))
            continue
        tyn = ty
        for n, v in vals:
            ci = find_own(k, tyn, "clone", "Clone", "bip32" if ty == "Error" else None)
            if ci is not None:
                c.decide("clone of %s::%s" % (ty, n), k.run(ci, [ref(v)]), [(TRUE, exactly(v))])
            ei = find_own(k, tyn, "eq", "PartialEq", "bip32" if ty == "Error" else None)
            if ei is not None:
                for m, w in vals:
                    c.decide("%s::%s == %s::%s" % (ty, n, ty, m), k.run(ei, [ref(v), ref(w)]), [(TRUE, ret(TRUE if n == m else FALSE, "equality"))])
    for ty, want in (("Language", "English"), ("MnemonicType", "Words12")):
        i = k.inst(ty, "default", "Default", opt=True)
        if i is None:
            continue
        got = [v for n, v in (k.langs() if ty == "Language" else k.mtypes()) if n == want]
        if not got:
            c.bad("default of " + ty, "%s::%s does not exist" % (ty, want))
            continue
        c.decide("default of " + ty, k.run(i, []), [(TRUE, ret(got[0], "default"))])
    i = k.inst("ChildNumber", "default", "Default", opt=True)
    if i is not None:
        c.decide("default of ChildNumber", k.run(i, []), [(TRUE, lambda cc, g, s, got: same(g, b.cn_u32(k.interp(), State(g, s.mem), got), 0, "default"))])
    # mnemonics and seeds
    m = B39(k)
    for ln, l in langs(c):
        key = {"English": "en", "ChineseSimplified": "zh"}[ln]
        for n in (16, 32) if c.tier == "quick" else (16, 20, 24, 28, 32):
            els = byte_terms(T("var", "e"), n)
            try:
                s, mn = m.mnemonic(els, l)
            except (Unsure, Undecided) as e:
                c.unsure("clone of a mnemonic", str(e))
                continue
            copy("a mnemonic of %d bytes, %s" % (n, ln), "Mnemonic", mn, lambda cc, g, s2, got, els=els, key=key, l=l: m.is_mnemonic(g, s2, got, encode(key, els), els, l, "copy"), g=s.g, mem=s.mem)
    els = byte_terms(T("var", "sd"), 64)
    copy("a seed", "Seed", k.seed(els), lambda cc, g, s, got: same(g, k.get(k.interp(), State(g, s.mem), got, "Seed", "as_bytes"), arr(els), "copy"))


def pubs(c, k, i):
    """two public keys are equal exactly when their points and attributes are"""
    u = Sym(k, "u", pub=True)
    c.decide("== of an extended public key with itself", k.run(i, [ref(u.v), ref(u.v)]), [(TRUE, ret(TRUE, "equality"))])
    t = Sym(k, "t", pub=True)
    same_at = And(eq(u.depth, t.depth, 8), els_eq(u.fp, t.fp), eq(u.cn, t.cn, 32), els_eq(u.cc, t.cc))
    # same point, any attributes
    w = k.xpub("t", k.pk(u.pk), k.attrs(t.depth, t.fp, t.cn, t.cc))
    c.decide("== of extended public keys with one point", k.run(i, [ref(u.v), ref(w)]), [(TRUE, ret(same_at, "equality"))])

    def unequal(cc, g, s, v):
        same(g, v, FALSE, "equality")
    c.decide("== of extended public keys with different attributes", k.run(i, [ref(u.v), ref(t.v)]), [(Not(same_at), unequal)])
    from vals import T as _T
    a = k.xpub("u", k.pk(u.pk), k.attrs(u.depth, u.fp, u.cn, u.cc))
    d = k.xpub("u", k.pk(t.pk), k.attrs(u.depth, u.fp, u.cn, u.cc))

    def points(cc, g, s, v):
        v = strip(v)
        if v is True or v is TRUE:
            raise Fail("keys with different points are equal")
    c.decide("== of extended public keys with different points", k.run(i, [ref(a), ref(d)]), [(Not(els_eq(u.ser, t.ser)), points)])


def variants(k, ty, mod):
    for n, ids in k.p.adtty.items():
        if last(n) == ty and n.startswith(k.p.d["crate"]) and (mod is None or mod in n):
            for i in ids:
                vs = k.p.types[i]["vars"]
                if any(v["f"] for v in vs):
                    raise Undecided("%s::%s carries data" % (ty, [v["n"] for v in vs if v["f"]][0]))
                return [(v["n"], ("adt", i, j, ())) for j, v in enumerate(vs)]
    raise Missing("type " + ty)


def find_own(k, ty, name, trait, mod):
    for r in k.p.roots:
        if r["name"] == name and r["self"] and last(r["self"]) == ty and r["trait"] and re.search(trait, r["trait"]) and (mod is None or mod in r["self"]) and r["insts"]:
            return r["insts"][0]
    return None
