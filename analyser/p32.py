"""Specifications of the BIP32 part (C20-C33) and of signing and hashing helpers (C40, C41)."""
from spec import *

HASH512 = "sha512"


def hmac512(key, data):
    return byte_terms(T("hmac", HASH512, tuple(key), tuple(data)), 64)


def be32(x):
    return tuple(trunc(shr(x, 8 * i, 32), 8) for i in (3, 2, 1, 0))


def from_be32(bs):
    v = 0
    for b in bs:
        v = bitop("or", shl(v, 8, 32), zext(b), 32)
    return v


def zext(b):
    if type(b) is int:
        return b
    return mkbv(bits(b, 8) + (0,) * 24)


def hard_bit(x):
    return ff(bits(x, 32)[31])


def sk_ok(els):
    if all(type(e) is int for e in els):
        return TRUE if 0 < int.from_bytes(bytes(els), "big") < 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141 else FALSE
    return P("sk_ok", tuple(els))


def hash160(els):
    return byte_terms(T("ripemd160", byte_terms(T("sha256", tuple(els)), 32)), 20)


class B32:
    """abstract extended keys, and what is observed of them through their public accessors"""

    def __init__(self, k):
        self.k = k

    def attrs_of(self, v):
        f = self.k.fields(v)
        if f is None or not {"depth", "parent_fingerprint", "child_number", "chain_code"} <= set(f):
            raise Unsure("attributes: " + text_of(v))
        return f

    def cn_u32(self, I, s, v):
        outs = I.call_whole(self.k.inst("u32", "from", r"From<.*ChildNumber"), [v], s)
        if len(outs) != 1:
            raise Unsure("u32 of a child number has %d outcomes" % len(outs))
        return I.full(outs[0][0], outs[0][1])

    def same_attrs(self, g, s, v, depth, fp, cn, cc, what):
        I = self.k.interp()
        a = self.attrs_of(I.full(s, v))
        same(g, a["depth"], depth, what + " depth")
        same(g, a["parent_fingerprint"], arr(fp), what + " parent fingerprint")
        same(g, self.cn_u32(I, State(g, s.mem), a["child_number"]), cn, what + " child number")
        same(g, a["chain_code"], arr(cc), what + " chain code")

    def same_xprv(self, g, s, v, key, depth, fp, cn, cc, what="result"):
        k, I = self.k, self.k.interp()
        st = State(g, s.mem)
        same(g, k.get(I, st, v, "ExtendedPrivateKey", "to_bytes"), arr(key), what + " private key")
        self.same_attrs(g, st, k.get(I, st, v, "ExtendedPrivateKey", "attrs"), depth, fp, cn, cc, what)

    def same_xpub(self, g, s, v, pk, depth, fp, cn, cc, what="result"):
        k, I = self.k, self.k.interp()
        st = State(g, s.mem)
        got = strip(k.get(I, st, v, "ExtendedPublicKey", "public_key"))
        same(g, got, k.pk(pk), what + " public key")
        self.same_attrs(g, st, k.get(I, st, v, "ExtendedPublicKey", "attrs"), depth, fp, cn, cc, what)


class Sym:
    """components of a symbolic parent"""

    def __init__(self, k, tag, pub=False, depth=None):
        self.depth = tv(T("var", tag + ".depth", w=8)) if depth is None else depth
        self.fp = byte_terms(T("var", tag + ".fp"), 4)
        self.cn = tv(T("var", tag + ".cn", w=32))
        self.cc = byte_terms(T("var", tag + ".cc"), 32)
        at = k.attrs(self.depth, self.fp, self.cn, self.cc)
        if pub:
            self.ser = byte_terms(T("var", tag + ".pk"), 33)
            self.pk = T("pkparse", self.ser)
            self.v = k.xpub(tag, k.pk(self.pk), at)
        else:
            self.key = byte_terms(T("var", tag + ".sk"), 32)
            self.pk = T("pkof", self.key)
            self.ser = byte_terms(T("pkser", self.pk), 33)
            self.v = k.xprv(tag, k.sk(tag + ".sk"), at)


# ------------------------------------------------------------------ C20
def c20(c):
    k, b = c.k, B32(c.k)
    root = k.find("ExtendedPrivateKey", "new")
    if not root["insts"]:
        raise Missing("ExtendedPrivateKey::new has no analysable instance")

    def cases(els, L):
        I512 = hmac512(b"Bitcoin seed", els)
        good = in_val(L, ((16, 16), (32, 32), (64, 64), (128, 128)), 64)
        okf = sk_ok(I512[:32])

        def master(c, g, s, v):
            b.same_xprv(g, s, v, I512[:32], 0, (0, 0, 0, 0), 0, I512[32:], "master")
        return [(And(good, okf), okv(master)), (And(good, Not(okf)), is_err), (Not(good), is_err)]

    for i in root["insts"]:
        ts = k.p.tstr(k.p.insts[i]["body"]["locals"][1])
        if last(ts) == "Seed":
            els = byte_terms(T("var", "seed"), 64)
            c.decide("new(Seed)", k.run(i, [k.seed(els)]), cases(els, 64))
            continue
        wrap = (lambda v: ref(v)) if ts.startswith("&") else (lambda v: v)
        els = (T("sp", T("var", "seed")),)
        c.decide("new(%s of any length)" % ts, k.run(i, [wrap(arr(els))]), cases(els, len_els(els)))
        for n in (0, 1, 8, 15, 16, 17, 20, 24, 28, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 256):
            els = byte_terms(T("var", "seed"), n)
            c.decide("new(%s of %d bytes)" % (ts, n), k.run(i, [wrap(arr(els))]), cases(els, n))


# ------------------------------------------------------------------ C21, C22, C27
def step_prv(p, i):
    """(I, conditions in order, child) of the private derivation step"""
    h = hard_bit(i)
    res = []
    for f, data in ((h, (0,) + p.key + be32(i)), (Not(h), p.ser + be32(i))):
        I512 = hmac512(p.cc, data)
        ok1 = sk_ok(I512[:32])
        ok2 = P("skadd_ok", p.key, I512[:32])
        res.append((f, I512, ok1, ok2))
    return res


def c21(c):
    k, b = c.k, B32(c.k)
    p = Sym(k, "p")
    i = tv(T("var", "i", w=32))
    cases = []
    deep = eq(p.depth, 255, 8)
    fp = hash160(p.ser)[:4]
    for f, I512, ok1, ok2 in step_prv(p, i):
        key = byte_terms(T("skadd", p.key, I512[:32]), 32)

        def child(c, g, s, v, key=key, I512=I512):
            b.same_xprv(g, s, v, key, add(p.depth, 1, 8), fp, i, I512[32:], "child")
        cases.append((And(f, Not(deep), ok1, ok2), okv(child)))
        cases.append((And(f, Not(deep), Not(ok1)), is_err))
        cases.append((And(f, Not(deep), ok1, Not(ok2)), is_err))
    cases.append((deep, is_err))
    c.decide("derive_child(any parent, any child number)", k.run(k.inst("ExtendedPrivateKey", "derive_child"), [ref(p.v), k.child(i)]), cases)
    sk_step(c)


def sk_step(c):
    """the scalar step offered by the PrivateKey trait"""
    k = c.k
    a, t = byte_terms(T("var", "a"), 32), byte_terms(T("var", "t"), 32)
    inst = k.inst("SecretKey", "derive_child", "PrivateKey", opt=True)
    if inst is None:
        raise Missing("PrivateKey::derive_child for SecretKey")
    ok1, ok2 = sk_ok(t), P("skadd_ok", a, t)
    want = ("adt", "libsecp256k1::SecretKey", 0, (arr(byte_terms(T("skadd", a, t), 32)),))
    c.decide("SecretKey::derive_child", k.run(inst, [ref(k.sk("a")), arr(t)]),
             [(And(ok1, ok2), okv(ret(want, "child key"))), (And(ok1, Not(ok2)), is_err), (Not(ok1), is_err)])


def c22(c):
    k, b = c.k, B32(c.k)
    i = tv(T("var", "i", w=32))
    h = hard_bit(i)
    inst = k.inst("ExtendedPublicKey", "derive_child")
    # a parsed public key, and the public key of a private key
    for tag in ("parsed", "neutered"):
        p = Sym(k, "p", pub=True)
        if tag == "neutered":
            key = byte_terms(T("var", "p.sk"), 32)
            p.pk = T("pkof", key)
            p.ser = byte_terms(T("pkser", p.pk), 33)
            p.v = k.xpub("p", k.pk(p.pk), k.attrs(p.depth, p.fp, p.cn, p.cc))
        I512 = hmac512(p.cc, p.ser + be32(i))
        ok1 = sk_ok(I512[:32])
        ok2 = P("skadd_ok", key, I512[:32]) if tag == "neutered" else P("pkadd_ok", p.pk, I512[:32])
        deep = eq(p.depth, 255, 8)
        fp = hash160(p.ser)[:4]

        def child(c, g, s, v):
            b.same_xpub(g, s, v, T("pkadd", p.pk, I512[:32]), add(p.depth, 1, 8), fp, i, I512[32:], "child")
        live = And(Not(h), Not(deep))
        c.decide("derive_child(any %s parent, any child number)" % tag, k.run(inst, [ref(p.v), k.child(i)]),
                 [(And(live, ok1, ok2), okv(child)), (And(live, Not(ok1)), is_err), (And(live, ok1, Not(ok2)), is_err),
                  (And(Not(h), deep), is_err), (h, is_err)])
    x, t = byte_terms(T("var", "x"), 33), byte_terms(T("var", "t"), 32)
    inst = k.inst("PublicKey", "derive_child", "PublicKey")
    pk = T("pkparse", x)
    ok1, ok2 = sk_ok(t), P("pkadd_ok", pk, t)
    c.decide("PublicKey::derive_child", k.run(inst, [ref(k.pk(pk)), arr(t)]),
             [(And(ok1, ok2), okv(ret(k.pk(T("pkadd", pk, t)), "child key"))), (And(ok1, Not(ok2)), is_err), (Not(ok1), is_err)])


def c27(c):
    k = c.k
    i = tv(T("var", "i", w=32))
    for ty, pub in (("ExtendedPrivateKey", False), ("ExtendedPublicKey", True)):
        p = Sym(k, "p", pub=pub)
        deep = eq(p.depth, 255, 8)

        def depth_ok(c, g, s, v, ty=ty):
            u = unwrap(v)
            if u is None:
                raise Unsure("result is " + text_of(v))
            if u[0] == "err":
                return
            I = k.interp()
            a = B32(k).attrs_of(I.full(s, k.get(I, s, u[1], ty, "attrs")))
            same(g, a["depth"], add(p.depth, 1, 8), "depth of the child")
        c.decide("%s::derive_child" % ty, k.run(k.inst(ty, "derive_child"), [ref(p.v), k.child(i)]),
                 [(deep, is_err), (Not(deep), depth_ok)])
        for d in (0, 1, 127, 128, 253, 254, 255):
            p = Sym(k, "p", pub=pub, depth=d)

            def dk(c, g, s, v, ty=ty, d=d):
                u = unwrap(v)
                if u and u[0] == "err" and d < 255:
                    return
                I = k.interp()
                if u and u[0] == "ok":
                    if d == 255:
                        raise Fail("succeeds at depth 255")
                    a = B32(k).attrs_of(I.full(s, k.get(I, s, u[1], ty, "attrs")))
                    same(g, a["depth"], d + 1, "depth of the child")
            c.decide("%s::derive_child at depth %d" % (ty, d), k.run(k.inst(ty, "derive_child"), [ref(p.v), k.child(i)]), [(TRUE, dk)])
        # along a path, starting near the limit
        for d, n in ((253, 2), (254, 2), (255, 1)):
            p = Sym(k, "p", pub=pub, depth=d)

            def pk(c, g, s, v, ty=ty, d=d, n=n):
                u = unwrap(v)
                if u and u[0] == "ok":
                    if d + n > 255:
                        raise Fail("path of %d steps from depth %d succeeds" % (n, d))
                    I = k.interp()
                    a = B32(k).attrs_of(I.full(s, k.get(I, s, u[1], ty, "attrs")))
                    same(g, a["depth"], d + n, "depth of the result")
            path = k.path([tv(T("var", "i%d" % j, w=32)) for j in range(n)])
            c.decide("%s::derive_from_path %d steps from depth %d" % (ty, n, d),
                     k.run(k.inst(ty, "derive_from_path"), [p.v, ref(path)]), [(TRUE, pk)])
        for d, n in ((0, 255), (0, 256), (0, 257), (100, 155), (100, 156), (200, 60), (1, 512)):
            p = Sym(k, "p", pub=pub, depth=d)

            def lk(c, g, s, v, ty=ty, d=d, n=n):
                u = unwrap(v)
                if u and u[0] == "ok":
                    if d + n > 255:
                        raise Fail("path of %d steps from depth %d succeeds" % (n, d))
                    I = k.interp()
                    a = B32(k).attrs_of(I.full(s, k.get(I, s, u[1], ty, "attrs")))
                    same(g, a["depth"], d + n, "depth of the result")
                elif d + n <= 255:
                    raise Fail("path of %d steps from depth %d fails though no curve operation does" % (n, d))
            c.decide("%s::derive_from_path %d steps from depth %d, no curve operation failing" % (ty, n, d),
                     k.run(k.inst(ty, "derive_from_path"), [p.v, ref(k.path(long_steps(n, False)))], I=lucky(k)), [(TRUE, lk)])


# ------------------------------------------------------------------ C23
def c23(c):
    k, b = c.k, B32(c.k)
    p = Sym(k, "p")
    neuter = k.inst("ExtendedPrivateKey", "public_key")

    def neutered(c, g, s, v):
        b.same_xpub(g, s, v, p.pk, p.depth, p.fp, p.cn, p.cc, "neutered key")
    c.decide("public_key", k.run(neuter, [ref(p.v)]), [(TRUE, neutered)])
    conv = k.inst("ExtendedPublicKey", "from", r"From<&.*ExtendedPrivateKey", opt=True)
    if conv is not None:
        c.decide("From<&ExtendedPrivateKey>", k.run(conv, [ref(p.v)]), [(TRUE, neutered)])
    # private then neuter == neuter then public
    i = tv(T("var", "i", w=32))
    g0 = Guard().assume(Not(hard_bit(i)))[0]
    ra = k.run(k.inst("ExtendedPrivateKey", "derive_child"), [ref(p.v), k.child(i)], g=g0)
    rn = k.run(neuter, [ref(p.v)], g=g0)
    if ra.outs is None or rn.outs is None or len(rn.outs) != 1:
        c.unsure("commutation", "%s / %s" % (ra.why, rn.why))
        return
    pub = rn.I.full(rn.outs[0][0], rn.outs[0][1])
    rb = k.run(k.inst("ExtendedPublicKey", "derive_child"), [ref(pub), k.child(i)], g=g0)
    if rb.outs is None:
        c.unsure("commutation", rb.why)
        return
    prv = [(s, ra.I.full(s, v)) for s, v in ra.outs]

    def agree(c, g, s, v):
        """v: result of the public route; compare with every private outcome compatible with g"""
        for s2, v2 in prv:
            gs = [g]
            for f in s2.g.conj():
                gs = [h for x in gs for h in x.assume(f)]
            for h in gs:
                a, bb = unwrap(v), unwrap(v2)
                if a is None or bb is None:
                    raise Unsure("results " + text_of(v) + " / " + text_of(v2))
                if a[0] != bb[0]:
                    m = "public derivation gives %s, private derivation %s" % (text_of(v, 80), text_of(v2, 80))
                    if h.soft():
                        raise Unsure(m)
                    raise Fail(m)
                if a[0] == "err":
                    continue
                I = k.interp()
                st = State(h, dict(s2.mem))
                n = k.get(I, st, bb[1], "ExtendedPrivateKey", "public_key")
                x = strip(k.get(I, st, n, "ExtendedPublicKey", "public_key"))
                y = strip(k.get(I, st, a[1], "ExtendedPublicKey", "public_key"))
                same(h, y, x, "public key of the two routes")
                fa = b.attrs_of(I.full(st, k.get(I, st, n, "ExtendedPublicKey", "attrs")))
                fb_ = b.attrs_of(I.full(st, k.get(I, st, a[1], "ExtendedPublicKey", "attrs")))
                for nm in ("depth", "parent_fingerprint", "child_number", "chain_code"):
                    same(h, fb_[nm], fa[nm], "%s of the two routes" % nm)
    c.decide("derive then neuter = neuter then derive", rb, [(TRUE, agree)])


# ------------------------------------------------------------------ C24
def fold_cases(outs):
    return outs


LUCKY = {"skadd_ok", "pkadd_ok", "sk_ok", "pk_ok", "pkf_ok", "pkmul_ok", "pkcombine_ok"}


def lucky(k):
    """an interpreter that follows only the paths on which no curve operation fails"""
    I = k.interp()
    I.lucky = LUCKY
    return I


def long_steps(n, hardened):
    return [(11 + 7 * j) | (0x80000000 if hardened and j % 3 == 1 else 0) for j in range(n)]


def follow(k, ty, start, cns, g0=None, mk=None):
    """[(guard, ('ok', value, state) | ('err', error))] of stepping child by child with the public operation"""
    cur = [(State(g0 or Guard(), {}), start)]
    res = []
    inst = k.inst(ty, "derive_child")
    for n in cns:
        nxt = []
        for s, v in cur:
            r = k.run(inst, [ref(v), k.child(n)], g=s.g, mem=s.mem, I=mk(k) if mk else None)
            if r.outs is None:
                raise Unsure("derive_child: " + r.why)
            for s2, v2 in r.outs:
                v2 = r.I.full(s2, v2)
                u = unwrap(v2)
                if u is None:
                    raise Unsure("derive_child returns " + text_of(v2))
                if u[0] == "ok":
                    nxt.append((s2, u[1]))
                else:
                    res.append((s2, ("err", u[1])))
        cur = nxt
    return res + [(s, ("ok", v)) for s, v in cur]


def agree_with(k, ref_outs, what):
    def e(c, g, s, v):
        hit = False
        for s2, w in ref_outs:
            gs = [g]
            for f in s2.g.conj():
                gs = [h for x in gs for h in x.assume(f)]
            for h in gs:
                hit = True
                u = unwrap(v)
                if u is None:
                    raise Unsure("result is " + text_of(v))
                try:
                    if u[0] != w[0]:
                        raise Fail("%s where the steps one by one give %s" % (text_of(v, 100), text_of(w, 100)))
                    same(h, u[1], w[1], what)
                except Fail as x:
                    if h.soft():
                        raise Unsure(str(x))
                    raise
    return e


def c24(c):
    k = c.k
    for ty, pub in (("ExtendedPrivateKey", False), ("ExtendedPublicKey", True)):
        inst = k.inst(ty, "derive_from_path")
        for n in (0, 1, 2, 3):
            p = Sym(k, "p", pub=pub)
            cns = [tv(T("var", "i%d" % j, w=32)) for j in range(n)]
            label = "%s::derive_from_path of %d elements" % (ty, n)
            r = k.run(inst, [p.v, ref(k.path(cns))])
            try:
                exp = follow(k, ty, p.v, cns)
            except (Unsure, Undecided) as e:
                c.unsure(label, str(e))
                continue
            c.decide(label, r, [(TRUE, agree_with(k, exp, "key reached"))])
        # long paths of fixed elements, so that a bound on the length or a skipped element shows
        for n in (6, 12):
            p = Sym(k, "p", pub=pub)
            cns = [(5 + 7 * j) for j in range(n)]
            label = "%s::derive_from_path of %d fixed elements" % (ty, n)
            try:
                exp = follow(k, ty, p.v, cns)
            except (Unsure, Undecided) as e:
                c.unsure(label, str(e))
                continue
            c.decide(label, k.run(inst, [p.v, ref(k.path(cns))]), [(TRUE, agree_with(k, exp, "key reached"))])
        for n in (33, 64, 128, 254, 255, 256) if c.tier == "quick" else (17, 33, 64, 65, 100, 128, 129, 200, 254, 255, 256, 257, 300):
            p = Sym(k, "p", pub=pub, depth=0)
            cns = long_steps(n, not pub)
            label = "%s::derive_from_path of %d elements from depth 0, no curve operation failing" % (ty, n)
            try:
                exp = follow(k, ty, p.v, cns, mk=lucky)
            except (Unsure, Undecided) as e:
                c.unsure(label, str(e))
                continue
            c.decide(label, k.run(inst, [p.v, ref(k.path(cns))], I=lucky(k)), [(TRUE, agree_with(k, exp, "key reached"))])
    root = k.find("ExtendedPrivateKey", "new_from_path")
    news = {k.p.tstr(k.p.insts[i]["body"]["locals"][1]): i for i in k.find("ExtendedPrivateKey", "new")["insts"]}
    if not root["insts"]:
        raise Missing("ExtendedPrivateKey::new_from_path has no analysable instance")
    for i in root["insts"]:
        ts = k.p.tstr(k.p.insts[i]["body"]["locals"][1])
        if ts not in news:
            continue
        seed = byte_terms(T("var", "seed"), 64)
        arg = k.seed(seed) if last(ts) == "Seed" else ref(arr(seed)) if ts.startswith("&") else arr(seed)
        for n in (0, 1, 2):
            cns = [tv(T("var", "i%d" % j, w=32)) for j in range(n)]
            label = "new_from_path(%s, %d elements)" % (ts, n)
            r = k.run(i, [arg, ref(k.path(cns))])
            m = k.run(news[ts], [arg])
            try:
                if m.outs is None:
                    raise Unsure(m.why)
                exp = []
                for s, v in m.outs:
                    v = m.I.full(s, v)
                    u = unwrap(v)
                    if u is None:
                        raise Unsure("new returns " + text_of(v))
                    if u[0] == "err":
                        exp.append((s, ("err", u[1])))
                    else:
                        exp += follow(k, "ExtendedPrivateKey", u[1], cns, s.g)
            except (Unsure, Undecided) as e:
                c.unsure(label, str(e))
                continue
            c.decide(label, r, [(TRUE, agree_with(k, exp, "key reached"))])
        for n in (64, 255, 256):
            cns = long_steps(n, True)
            label = "new_from_path(%s, %d elements), no curve operation failing" % (ts, n)
            m = k.run(news[ts], [arg], I=lucky(k))
            try:
                if m.outs is None:
                    raise Unsure(m.why)
                exp = []
                for s, v in m.outs:
                    u = unwrap(m.I.full(s, v))
                    if u and u[0] == "ok":
                        exp += follow(k, "ExtendedPrivateKey", u[1], cns, s.g, mk=lucky)
            except (Unsure, Undecided) as e:
                c.unsure(label, str(e))
                continue
            c.decide(label, k.run(i, [arg, ref(k.path(cns))], I=lucky(k)), [(TRUE, agree_with(k, exp, "key reached"))])
        els = (T("sp", T("var", "seed")),)
        if last(ts) != "Seed":
            arg2 = ref(arr(els)) if ts.startswith("&") else arr(els)
            m = k.run(news[ts], [arg2])
            r = k.run(i, [arg2, ref(k.path([]))])
            if m.outs is None:
                c.unsure("new_from_path(any seed)", m.why)
                continue
            exp = [(s, tuple(unwrap(m.I.full(s, v)) or ("?",))) for s, v in m.outs]
            c.decide("new_from_path(%s of any length, empty path)" % ts, r, [(TRUE, agree_with(k, exp, "key reached"))])


# ------------------------------------------------------------------ C25
def path_of(cns, k):
    def e(c, g, s, v):
        I = k.interp()
        got = strip(k.get(I, s, v, "DerivationPath", "as_ref", "AsRef"))
        if not is_arr(got):
            raise Unsure("path is " + text_of(v))
        if len(got[1]) != len(cns):
            raise Fail("path of %d elements instead of %d" % (len(got[1]), len(cns)))
        for j, (x, y) in enumerate(zip(got[1], cns)):
            same(g, B32(k).cn_u32(k.interp(), s, x), y, "element %d" % j)
    return e


def elt_cases(parts):
    """[(formula, u32 or None)] of one path element given as string parts"""
    x = skey(parts)
    if isinstance(x, str):
        t, h = (x[:-1], 1) if x.endswith("'") else (x, 0)
        n = t[1:] if t.startswith("+") else t
        if n and all(ch in "0123456789" for ch in n) and int(n) < 1 << 31:
            return [(TRUE, int(n) | (h << 31))]
        return [(TRUE, None)]
    # text known to be <dec(v)> or <dec(v)>' with a possible + before it
    ps = list(string(*bytes_str(str_bytes(parts))[1])[1])
    d = [p for p in ps if isT(p, "dec")]
    if d:
        if len(d) == 1 and "".join("#" if isT(p, "dec") else p for p in ps) in ("#", "#'", "+#", "+#'"):
            v = d[0].args[0]
            h = ps[-1] == "'"
            small = in_val(v, ((0, (1 << 31) - 1),), 32)
            return [(small, bitop("or", v, (1 << 31) if h else 0, 32)), (Not(small), None)]
        return [(TRUE, None)]
    if len(ps) == 1:
        q = P("ends", "'", x)
        out = []
        for f, y, h in ((q, subterm(x, 0, 1), 1), (Not(q), x, 0)):
            okp = P("parse_ok", "u32", y)
            v = tv(T("parse", "u32", y, w=32))
            small = in_val(v, ((0, (1 << 31) - 1),), 32)
            out += [(And(f, Not(okp)), None), (And(f, okp, Not(small)), None), (And(f, okp, small), bitop("or", v, h << 31, 32))]
        return out
    raise Unsure("element " + repr(parts))


def path_cases(k, elems):
    """cases of a whole path: the first element must be m"""
    f0 = str_eq(elems[0], ("m",))
    acc = [(f0, [])]
    out = [(Not(f0), is_err)]
    for e in elems[1:]:
        nxt = []
        for f, l in acc:
            for q, v in elt_cases(e):
                if v is None:
                    out.append((And(f, q), is_err))
                else:
                    nxt.append((And(f, q), l + [v]))
        acc = nxt
    return out + [(f, okv(path_of(l, k))) for f, l in acc]


def c25(c):
    k = c.k
    cf = k.inst("ChildNumber", "from_str", "FromStr")
    pf = k.inst("DerivationPath", "from_str", "FromStr")
    dec = lambda n: T("dec", tv(T("var", n, w=32)))
    elt = lambda i: T("elt", T("var", "s"), i)

    def num(v):
        return lambda c, g, s, x: same(g, B32(k).cn_u32(k.interp(), s, x), v, "child number")

    def child(label, parts):
        cases = [(f, is_err if v is None else okv(num(v))) for f, v in elt_cases(parts)]
        c.decide("ChildNumber::from_str(%s)" % label, k.run(cf, [ref(string(*parts))]), cases)
    # what the code itself mentions
    for x in k.texts(pf) + ["\u2018", "\u02b9", "\uff07", "\u0660", "\uff10", "\ufeff", "\u200b"]:
        for label, parts in (("<n>" + x, (dec("n"), x)), (x + "<n>", (x, dec("n"))), ("<n>" + x + "'", (dec("n"), x, "'")), (x, (x,)), ("1" + x + "2", ("1" + x + "2",)),
                             ("7" + x, ("7" + x,)), (x + "7", (x + "7",)), ("7'" + x, ("7'" + x,)), ("0" + x + "'", ("0" + x + "'",))):
            if "/" not in x and (len(parts) == 1 or not any(ch.isascii() and ch.isdigit() for ch in x)):
                child(label.encode("unicode_escape").decode(), parts)
    child("any text", (T("var", "s"),))
    if c.obl[-1][0] == "undecided":
        from p39 import hostile
        for t in hostile():
            child("%.12r of %d" % (t, len(t)), (t,))
    for label, parts in (("<n>", (dec("n"),)), ("<n>'", (dec("n"), "'")), ("<n>''", (dec("n"), "''")), ("'<n>", ("'", dec("n"))),
                         ("+<n>", ("+", dec("n"))), ("-<n>", ("-", dec("n"))), ("<n>h", (dec("n"), "h")), ("<n>H", (dec("n"), "H")),
                         (" <n>", (" ", dec("n"))), ("<n> ", (dec("n"), " ")), ("<n>\\n", (dec("n"), "\n")), ("<n> '", (dec("n"), " '")),
                         ("0x<n>", ("0x", dec("n"))), ("<n>_", (dec("n"), "_")), ("'<n>'", ("'", dec("n"), "'")), ("<n>.0", (dec("n"), ".0")),
                         ("<n>/", (dec("n"), "/")), ("m/<n>", ("m/", dec("n"))), ("<n>\u2019", (dec("n"), "\u2019"))):
        child(label, parts)
    for t in ("", "'", "''", "h", "+", "-", "+'", " ", "0", "0'", "00", "007'", "1'", "2147483647", "2147483647'", "2147483648", "2147483648'",
              "4294967295", "4294967295'", "4294967296", "4294967296'", "18446744073709551616", "-1", "-0", "1e3", "0x1", "0b1", "a", "1a", "a1",
              "1 ", " 1", "\t1", "1\n", "1'0", "0''", "1_000", "1,0", "\u0661", "\uff11", "\u00b2", "0h", "0H", "0\u2032", "0`"):
        child(repr(t), (t,))

    def whole(label, elems):
        parts = []
        for j, e in enumerate(elems):
            parts += (["/"] if j else []) + list(e)
        c.decide("DerivationPath::from_str(%s)" % label, k.run(pf, [ref(string(*parts))]), path_cases(k, elems))
    whole("any text without /", [(elt(0),)])
    for n in (1, 2, 3):
        whole("m/ and %d arbitrary elements" % n, [("m",)] + [(elt(j),) for j in range(n)])
    whole("three arbitrary elements", [(elt(0),), (elt(1),), (elt(2),)])
    for n in (1, 2, 3, 4):
        for q in ("", "'"):
            whole("m and %d times /<n>%s" % (n, q), [("m",)] + [(dec("n%d" % j), q) if q else (dec("n%d" % j),) for j in range(n)])
    for pre in ("", "M", "m ", " m", "mm", "n", "0", "m'", "\u217f"):
        whole(repr(pre) + "/<n>", [(pre,), (dec("n"),)])
    for suf in ("", " ", "m", "''", "'", "*"):
        whole("m/<n>/" + repr(suf), [("m",), (dec("n"),), (suf,)])
        whole("m/%r/<n>" % suf, [("m",), (suf,), (dec("n"),)])
    for x in k.texts(pf, 12) + ["\u2215", "\uff0f", "\uff4d"]:
        for t in (x, "m" + x, x + "m", "m/1" + x, "m" + x + "/1", x + "/1", "m/" + x, "m/" + x + "/1", "m/1" + x + "2", "m/1/" + x + "2", "m/1'" + x + "/2"):
            whole(t.encode("unicode_escape").decode(), [(e,) for e in t.split("/")])
    for t in ("", "/", "//", "m", "M", "m/", "/m", "m//", "m/0/", "m/0//1", "/0", "0", "m0", "m 0", "m\\0", "m/0 /1", "m/m", "m/m/0", "m/0/m",
              " m/0", "m/0 ", "\nm", "m\n", "m/0,1", "m/44'/60'/0'/0/0", "m/2147483647'/2147483648", "m/0h", "m/'", "m/0''", "m/-1", "m/1'2", "m|0"):
        whole(repr(t), [(e,) for e in t.split("/")])
    if any(o[0] == "undecided" and o[1].startswith("DerivationPath::from_str(") for o in c.obl):
        from p39 import hostile
        for t in hostile():
            whole("%.12r of %d" % (t, len(t)), [(t,)])
            whole("m/%.12r of %d" % (t, len(t)), [("m",), (t,)])
    whole("300 elements", [("m",)] + [(str(j * 5),) if j % 3 else (str(j), "'") for j in range(300)])
    # printing and parsing back
    cd = k.inst("ChildNumber", "fmt", "Display")
    pd = k.inst("DerivationPath", "fmt", "Display")
    x = tv(T("var", "x", w=32))
    roundtrip(c, "child number", cd, cf, k.child(x), okv(num(x)))
    for n in (0, 1, 2, 3, 4):
        xs = [tv(T("var", "x%d" % j, w=32)) for j in range(n)]
        roundtrip(c, "path of %d elements" % n, pd, pf, k.path(xs), okv(path_of(xs, k)))
    xs = [7 * j + ((j % 2) << 31) for j in range(40)]
    roundtrip(c, "path of 40 fixed elements", pd, pf, k.path(xs), okv(path_of(xs, k)))


def roundtrip(c, label, show_inst, parse_inst, v, exp):
    k = c.k
    r = k.render(show_inst, ref(v))
    if r.outs is None:
        c.unsure("print " + label, r.why)
        return
    for s, w in r.outs:
        st, t = w[1]
        u = unwrap(st)
        lab = "print and parse back %s when %s" % (label, clip(s.g.show(), 120))
        if u is None or u[0] != "ok":
            c.bad(lab, "%s: printing fails" % r.what)
            continue
        t = strip(t)
        if not is_str(t):
            c.unsure(lab, "%s: text is %s" % (r.what, text_of(t)))
            continue
        c.decide(lab, k.run(parse_inst, [ref(t)], g=s.g), [(TRUE, exp)])


# ------------------------------------------------------------------ C26
def c26(c):
    k, b = c.k, B32(c.k)
    n = tv(T("var", "n", w=32))
    small = in_val(n, ((0, (1 << 31) - 1),), 32)
    low = mkbv(bits(n, 32)[:31] + (0,))

    def holds(idx, hard, u):
        def e(c, g, s, v):
            st = State(g, s.mem)
            I = k.interp()
            same(g, one(I, "ChildNumber", "index", v, st), idx, "index")
            same(g, one(I, "ChildNumber", "is_hardened", ref(v), st), hard, "hardened flag")
            same(g, b.cn_u32(I, st, v), u, "u32 value")
            same(g, one(I, "ChildNumber", "to_bytes", v, st), arr(be32(u)), "bytes")
        return e

    def one(I, ty, m, a, st):
        outs = I.call_whole(k.inst(ty, m), [a], st)
        if len(outs) != 1:
            raise Unsure("%s::%s has %d outcomes" % (ty, m, len(outs)))
        return I.full(outs[0][0], outs[0][1])
    new = k.inst("ChildNumber", "new")
    for h in (FALSE, TRUE):
        u = bitop("or", n, (1 << 31) if h is TRUE else 0, 32)
        c.decide("new(any index, %s)" % (h is TRUE), k.run(new, [n, h]), [(small, okv(holds(n, h, u))), (Not(small), is_err)])
        for x in (0, 1, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff):
            good = x < 1 << 31
            c.decide("new(%#x, %s)" % (x, h is TRUE), k.run(new, [x, h]),
                     [(TRUE, okv(holds(x, h, x | ((1 << 31) if h is TRUE else 0))) if good else is_err)])
    x = tv(T("var", "x", w=32))
    lowx = mkbv(bits(x, 32)[:31] + (0,))
    c.decide("From<u32>", k.run(k.inst("ChildNumber", "from", "From<u32>"), [x]), [(TRUE, holds(lowx, hard_bit(x), x))])
    bs = byte_terms(T("var", "b"), 4)
    u = from_be32(bs)
    c.decide("from_bytes", k.run(k.inst("ChildNumber", "from_bytes"), [arr(bs)]), [(TRUE, holds(mkbv(bits(u, 32)[:31] + (0,)), hard_bit(u), u))])
    v = k.child(x)
    for m, arg, want in (("index", v, lowx), ("is_hardened", ref(v), hard_bit(x)), ("to_bytes", v, arr(be32(x)))):
        c.decide(m, k.run(k.inst("ChildNumber", m), [arg]), [(TRUE, ret(want, m))])
    c.decide("u32::from", k.run(k.inst("u32", "from", r"From<.*ChildNumber"), [v]), [(TRUE, ret(x, "u32 value"))])
    y = tv(T("var", "y", w=32))
    w = k.child(y)
    c.decide("eq", k.run(k.inst("ChildNumber", "eq", "PartialEq"), [ref(v), ref(w)]), [(TRUE, ret(eq(x, y, 32), "equality"))])
    for cst in k.p.d["consts"]:
        if last(cst["n"]) == "HARDENED_FLAG" and cst["pub"]:
            (c.ok if cst["val"].get("int") == 1 << 31 else c.bad)("HARDENED_FLAG", "%s = %s" % (cst["n"], cst["val"]))


# ------------------------------------------------------------------ C28
def layout(ver, depth, fp, cn, cc, key):
    return be32(ver) + (depth,) + tuple(fp) + be32(cn) + tuple(cc) + tuple(key)


def c28(c):
    k = c.k
    ver = tv(T("var", "p.ver", w=32))
    pre = k.sym_prefix("p")
    p = Sym(k, "p")
    want = ("str", (T("b58c", layout(ver, p.depth, p.fp, p.cn, p.cc, (0,) + p.key)),))
    c.decide("ExtendedPrivateKey::to_string", k.run(k.inst("ExtendedPrivateKey", "to_string"), [ref(p.v), pre]), [(TRUE, ret(want, "text"))])

    def ext_is(key, q):
        def e(c, g, s, v):
            f = k.fields(strip(v))
            if f is None or not {"prefix", "attrs", "key_bytes"} <= set(f):
                raise Unsure("extended key is " + text_of(v))
            same(g, f["prefix"], pre, "prefix")
            B32(k).same_attrs(g, s, f["attrs"], q.depth, q.fp, q.cn, q.cc, "extended key")
            same(g, f["key_bytes"], arr(key), "key bytes")
        return e
    c.decide("ExtendedPrivateKey::to_extended_key", k.run(k.inst("ExtendedPrivateKey", "to_extended_key"), [ref(p.v), pre]),
             [(TRUE, ext_is((0,) + p.key, p))])
    q = Sym(k, "q", pub=True)
    wantq = ("str", (T("b58c", layout(ver, q.depth, q.fp, q.cn, q.cc, q.ser)),))
    c.decide("ExtendedPublicKey::to_string", k.run(k.inst("ExtendedPublicKey", "to_string"), [ref(q.v), pre]), [(TRUE, ret(wantq, "text"))])
    c.decide("ExtendedPublicKey::to_extended_key", k.run(k.inst("ExtendedPublicKey", "to_extended_key"), [ref(q.v), pre]),
             [(TRUE, ext_is(q.ser, q))])
    # the named prefixes too
    for cst in prefix_consts(k):
        pv = k.p_const(cst)
        f = k.fields(pv)
        n = f.get("version") if f else None
        if type(n) is not int:
            continue
        for ty, z, key in (("ExtendedPrivateKey", p, (0,) + p.key), ("ExtendedPublicKey", q, q.ser)):
            w = ("str", (T("b58c", layout(n, z.depth, z.fp, z.cn, z.cc, key)),))
            c.decide("%s::to_string(%s)" % (ty, cst["name"]), k.run(k.inst(ty, "to_string"), [ref(z.v), pv]), [(TRUE, ret(w, "text"))])
    # a parsed or hand-made extended key
    kb = byte_terms(T("var", "kb"), 33)
    ek = k.ext(pre, k.attrs(p.depth, p.fp, p.cn, p.cc), kb)
    wanted = ("str", (T("b58c", layout(ver, p.depth, p.fp, p.cn, p.cc, kb)),))
    r = k.render(k.inst("ExtendedKey", "fmt", "Display"), ref(ek))
    c.decide("Display of ExtendedKey", r, [(TRUE, lambda c, g, s, v: (okv(None)(c, g, s, v[1][0]), same(g, v[1][1], wanted, "text")))])
    I = k.interp()
    st = State(Guard(), {})
    buf = I.newtmp(st, arr(tuple(tv(T("byte", T("var", "buf"), i, w=8)) for i in range(112))))
    wb = k.inst("ExtendedKey", "write_base58", opt=True)
    if wb is None:
        c.bad("write_base58", "ExtendedKey::write_base58 does not exist")
    else:
        c.decide("ExtendedKey::write_base58", k.run(wb, [ref(ek), ("&m", buf, ())], mem=st.mem, I=I), [(TRUE, okv(ret(wanted, "text")))])


def prefix_consts(k):
    return [x for x in k.p.d["consts"] if x["pub"] and last(k.p.tstr(x["ty"])) == "Prefix"]


# ------------------------------------------------------------------ C29, C30
LETTERS = ((65, 90), (97, 122))


class Parse:
    """conditions and fields of extended key text s"""

    def __init__(self, name="s"):
        s = T("var", name)
        self.s = s
        tot = tv(T("b58tot", s, w=64))
        self.decodes = And(P("b58chars", s), in_val(tot, ((82, 82),), 64), P("b58cksum", s))
        self.chars = byte_terms(s, 4)
        self.letters = And(*[in_val(x, LETTERS, 8) for x in self.chars])
        b = byte_terms(T("b58dec", s), 78)
        self.ver = from_be32(b[:4])
        self.depth = b[4]
        self.fp = b[5:9]
        self.cn = from_be32(b[9:13])
        self.cc = b[13:45]
        self.key = b[45:]
        z = els_eq(b[5:13], (0,) * 8)
        self.rootok = Or(Not(eq(b[4], 0, 8)), z)
        self.ok = And(self.decodes, self.letters, self.rootok)


def c29(c):
    k = c.k
    x = Parse()
    inst = k.inst("ExtendedKey", "from_str", "FromStr")

    def good(c, g, s, v):
        f = k.fields(strip(v))
        if f is None or not {"prefix", "attrs", "key_bytes"} <= set(f):
            raise Unsure("extended key is " + text_of(v))
        I = k.interp()
        st = State(g, s.mem)
        ver = I.call_whole(k.inst("Prefix", "version"), [f["prefix"]], st)
        if len(ver) != 1:
            raise Unsure("Prefix::version has %d outcomes" % len(ver))
        same(g, I.full(*ver[0]), x.ver, "version")
        pf = k.fields(f["prefix"])
        for nm, val in (pf or {}).items():
            if is_arr(val) and len(val[1]) == 4:
                same(g, val, arr(x.chars), "prefix text")
        B32(k).same_attrs(g, st, f["attrs"], x.depth, x.fp, x.cn, x.cc, "parsed key")
        same(g, f["key_bytes"], arr(x.key), "key bytes")
    c.decide("ExtendedKey::from_str(any text)", k.run(inst, [ref(string(x.s))]),
             [(x.ok, okv(good)), (Not(x.decodes), is_err), (And(x.decodes, Not(x.letters)), is_err),
              (And(x.decodes, x.letters, Not(x.rootok)), is_err)])
    for t in key_texts(k.texts(inst, 12)):
        c.decide("ExtendedKey::from_str(%s.. %s)" % (t[:8], hashlib.sha256(t.encode()).hexdigest()[:8]), k.run(inst, [ref(string(t))]), [(TRUE, is_ok if well_formed(t) else is_err)])
    # parsing what serialization writes (the named prefixes)
    for cst in prefix_consts(k):
        pv = k.p_const(cst)
        f = k.fields(pv)
        if not f or type(f.get("version")) is not int:
            continue
        p = Sym(k, "p")
        kb = byte_terms(T("var", "kb"), 33)
        body = layout(f["version"], p.depth, p.fp, p.cn, p.cc, kb)
        t = T("b58c", body)
        root = Or(Not(eq(p.depth, 0, 8)), els_eq(p.fp + be32(p.cn), (0,) * 8))
        let = And(*[in_val(z, LETTERS, 8) for z in byte_terms(t, 4)])

        def back(c, g, s, v):
            ff_ = k.fields(strip(v))
            if ff_ is None:
                raise Unsure("extended key is " + text_of(v))
            pf = k.fields(ff_["prefix"]) or {}
            same(g, pf.get("version"), f["version"], "version")
            B32(k).same_attrs(g, State(g, s.mem), ff_["attrs"], p.depth, p.fp, p.cn, p.cc, "parsed key")
            same(g, ff_["key_bytes"], arr(kb), "key bytes")
        c.decide("ExtendedKey::from_str(serialized %s key)" % cst["name"], k.run(inst, [ref(string(t))]),
                 [(And(root, let), okv(back)), (And(Not(root), let), is_err)])
        # .. and parsing what this code itself writes
        label = "ExtendedKey::from_str(text of any %s key)" % cst["name"]
        w = k.render(k.inst("ExtendedKey", "fmt", "Display"), ref(k.ext(pv, k.attrs(p.depth, p.fp, p.cn, p.cc), kb)))
        if w.outs is None:
            c.unsure(label, "Display: " + w.why)
            continue
        for ws, wv in w.outs:
            u = unwrap(wv[1][0])
            if u and u[0] == "err" or not is_str(wv[1][1]):
                c.unsure(label, "Display gives " + text_of(wv))
                continue
            r = k.run(inst, [ref(wv[1][1])], g=ws.g, mem=ws.mem)
            ps = wv[1][1][1]
            if len(ps) != 1 or not isT(ps[0], "b58c"):
                c.unsure(label, "Display writes " + text_of(wv[1][1]))
                continue
            own = And(*[in_val(z, LETTERS, 8) for z in byte_terms(ps[0], 4)])
            c.decide(label, r, [(And(root, own), okv(back))])


B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58text(b):
    n = int.from_bytes(b, "big")
    t = ""
    while n:
        n, r = divmod(n, 58)
        t = B58[r] + t
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + t


def b58bytes(t):
    """bytes of a base58 text, or None"""
    if any(ch not in B58 for ch in t):
        return None
    n = 0
    for ch in t:
        n = n * 58 + B58.index(ch)
    body = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return b"\0" * (len(t) - len(t.lstrip("1"))) + body


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4]


def well_formed(t):
    """whether a text is a serialized extended key, by the reference rule"""
    b = b58bytes(t)
    if b is None or len(b) != 82 or dsha(b[:78]) != b[78:]:
        return False
    if not all(ch.isascii() and ch.isalpha() for ch in t[:4]):
        return False
    return b[4] != 0 or b[5:13] == bytes(8)


def key_texts(extra=()):
    """fixed texts: serialized keys and what only looks like them"""
    def ser(version, depth=3, fp=b"\x01\x02\x03\x04", cn=b"\x80\0\0\x07", key=bytes([0]) + bytes(range(1, 33)), cc=bytes(range(40, 72))):
        return version.to_bytes(4, "big") + bytes([depth]) + fp + cn + cc + key
    full = lambda b: b58text(b + dsha(b))
    prv, pub = ser(0x0488ADE4), ser(0x0488B21E, key=b"\x02" + bytes(range(60, 92)))
    root = ser(0x0488ADE4, 0, bytes(4), bytes(4))
    out = [full(x) for x in (prv, pub, root, ser(0x04358394), ser(0x049D7CB2), ser(0x0488ADE4, 255), ser(0x0488ADE4, 0, b"\0\0\0\1", bytes(4)), ser(0x0488ADE4, 0, bytes(4), b"\0\0\0\1"),
                             ser(0, 0, bytes(4), bytes(4)), ser(0xFFFFFFFF), ser(1), ser(0x0488ADE5), ser(0x0488ADE4, 1, bytes(4), bytes(4)), ser(0x0488ADE4, key=bytes(33)), ser(0x0488ADE4, key=b"\xff" * 33))]
    for b in (prv, pub, root):
        for n in (0, 1, 4, 13, 45, 74, 76, 77):
            out.append(full(b[:n]))
            out.append(b58text(b[:n] + dsha(b)))
        for tail in (b"\0", b"\1", b"\0\0", bytes(4), b"abcdefgh", dsha(b), bytes(50)):
            out.append(full(b + tail))
        # the text of 77 bytes whose check sum ends in zero, and of 79
        for j in range(3000):
            x = b[:13] + j.to_bytes(4, "big") + b[17:77]
            if dsha(x)[3] == 0:
                out += [full(x)]
                break
        for i in range(4):
            w = bytearray(b + dsha(b))
            w[78 + i] ^= 1 << i
            out.append(b58text(bytes(w)))
        out += [b58text(b + bytes(4)), b58text(b + hashlib.sha256(b).digest()[:4]), b58text(b + dsha(b)[::-1]), b58text(b), b58text(b + dsha(b) + bytes(2))]
        t = full(b)
        marks = list(dict.fromkeys([" ", "\n", "\t", "\0", "1", "0", "O", "l", "\ufeff", "\u200b", "\u3000", "\u00e9", "a", "z", "'", "/", "0x"] + list(extra)))
        for m in marks:
            out += [m + t, t + m, t[:4] + m + t[4:], t[:50] + m + t[50:], t[:60] + m + t[61:]]
        out += [t.upper(), t.lower(), t[:-1], t[1:], t[::-1], t + t, t[:20], t[:111 - 5], t.swapcase(), t[:-1] + ("A" if t[-1] != "A" else "B"), t[:9] + ("C" if t[9] != "C" else "D") + t[10:], "\u0445" + t[1:]]
    out += ["", "1", "x", "xprv", "xpub", "1" * 82, "1" * 111, "1" * 112, "z" * 111, "z" * 112, "\u00e9" * 55, "\u5b57" * 37]
    return list(dict.fromkeys(out))


def kind(chars, s):
    return els_eq(chars[1:], tuple(s.encode()))


def c30(c):
    k, b = c.k, B32(c.k)
    x = Parse()
    pk = T("pkparse", x.key)
    prv = And(kind(x.chars, "prv"), eq(x.key[0], 0, 8), sk_ok(x.key[1:]))
    pub = And(kind(x.chars, "pub"), P("pk_ok", x.key))

    def isprv(key, q):
        return lambda c, g, s, v: b.same_xprv(g, s, v, key[1:], q.depth, q.fp, q.cn, q.cc, "imported key")

    def ispub(key, q):
        return lambda c, g, s, v: b.same_xpub(g, s, v, T("pkparse", key), q.depth, q.fp, q.cn, q.cc, "imported key")
    c.decide("ExtendedPrivateKey::from_str(any text)", k.run(k.inst("ExtendedPrivateKey", "from_str", "FromStr"), [ref(string(x.s))]),
             [(And(x.ok, prv), okv(isprv(x.key, x))), (Not(x.ok), is_err), (And(x.ok, Not(prv)), is_err)])
    c.decide("ExtendedPublicKey::from_str(any text)", k.run(k.inst("ExtendedPublicKey", "from_str", "FromStr"), [ref(string(x.s))]),
             [(And(x.ok, pub), okv(ispub(x.key, x))), (Not(x.ok), is_err), (And(x.ok, Not(pub)), is_err)])
    # fixed texts
    N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
    fs = k.inst("ExtendedPrivateKey", "from_str", "FromStr")
    texts = key_texts(k.texts(fs, 12))
    for v in (0, 1, 2, N - 1, N, N + 1, (1 << 256) - 1, 1 << 255):
        for mark in (0, 1, 2, 128):
            for ver in (0x0488ADE4, 0x0488B21E, 0x04358394, 0x0488B21F):
                by = ver.to_bytes(4, "big") + bytes([1]) + bytes(8) + bytes(32) + bytes([mark]) + v.to_bytes(32, "big")
                texts.append(b58text(by + dsha(by)))
    for t in texts:
        by = b58bytes(t)
        good = well_formed(t) and t[1:4] == "prv" and by[45] == 0 and 0 < int.from_bytes(by[46:78], "big") < N
        c.decide("ExtendedPrivateKey::from_str(%s.. %s)" % (t[:8], hashlib.sha256(t.encode()).hexdigest()[:8]), k.run(fs, [ref(string(t))]), [(TRUE, is_ok if good else is_err)])
    # from a parsed key: any fields
    p = Sym(k, "p")
    chars = byte_terms(T("var", "p.chars"), 4)
    g0 = Guard()
    for z in chars:
        g0 = g0.assume(in_val(z, LETTERS, 8))[0]
    kb = byte_terms(T("var", "kb"), 33)
    ek = k.ext(k.sym_prefix("p"), k.attrs(p.depth, p.fp, p.cn, p.cc), kb)
    f = And(kind(chars, "prv"), eq(kb[0], 0, 8), sk_ok(kb[1:]))
    c.decide("ExtendedPrivateKey::try_from(any extended key)", k.run(k.inst("ExtendedPrivateKey", "try_from", r"TryFrom<.*ExtendedKey"), [ek], g=g0),
             [(f, okv(isprv(kb, p))), (Not(f), is_err)])
    f = And(kind(chars, "pub"), P("pk_ok", kb))
    c.decide("ExtendedPublicKey::try_from(any extended key)", k.run(k.inst("ExtendedPublicKey", "try_from", r"TryFrom<.*ExtendedKey"), [ek], g=g0),
             [(f, okv(ispub(kb, p))), (Not(f), is_err)])


# ------------------------------------------------------------------ C31
REGISTERED = {"TPRV": 0x04358394, "TPUB": 0x043587CF, "XPRV": 0x0488ADE4, "XPUB": 0x0488B21E,
              "YPRV": 0x049D7878, "YPUB": 0x049D7CB2, "ZPRV": 0x04B2430C, "ZPUB": 0x04B24746}


def c31(c):
    k = c.k
    seen = set()
    fb4 = k.inst("Prefix", "from_bytes")
    for cst in prefix_consts(k):
        nm = cst["name"]
        pv = k.p_const(cst)
        seen.add(nm)
        if nm not in REGISTERED:
            continue
        n = REGISTERED[nm]
        for label, inst, arg, want in (("version()", k.inst("Prefix", "version"), pv, n),
                                       ("as_str()", k.inst("Prefix", "as_str"), ref(pv), ("str", (nm.lower(),))),
                                       ("is_public()", k.inst("Prefix", "is_public"), pv, nm.endswith("PUB")),
                                       ("is_private()", k.inst("Prefix", "is_private"), pv, nm.endswith("PRV"))):
            c.decide("%s.%s" % (nm, label), k.run(inst, [arg]), [(TRUE, ret(want, label))])
        c.decide("%s from its bytes" % nm, k.run(fb4, [arr(tuple(n.to_bytes(4, "big")))]), [(TRUE, okv(ret(pv, "prefix")))])
    for nm in REGISTERED:
        if nm not in seen:
            c.bad("Prefix::" + nm, "the constant Prefix::%s does not exist" % nm)
    chars = byte_terms(T("var", "p.chars"), 4)
    ver = tv(T("var", "p.ver", w=32))
    pre = k.sym_prefix("p")
    g0 = Guard()
    for z in chars:
        g0 = g0.assume(in_val(z, LETTERS, 8))[0]
    one = lambda label, inst, arg, want: c.decide(label, k.run(inst, [arg], g=g0), [(TRUE, ret(want, label))])
    one("is_public", k.inst("Prefix", "is_public"), pre, kind(chars, "pub"))
    one("is_private", k.inst("Prefix", "is_private"), pre, kind(chars, "prv"))
    one("version", k.inst("Prefix", "version"), pre, ver)
    one("to_bytes", k.inst("Prefix", "to_bytes"), pre, arr(be32(ver)))
    one("as_str", k.inst("Prefix", "as_str"), ref(pre), arr(chars))
    i = k.inst("Prefix", "as_ref", "AsRef<str>", opt=True)
    if i is not None:
        one("as_ref", i, ref(pre), arr(chars))
    for a in (pre, ref(pre)):
        pat = r"From<&.*Prefix" if a[0] == "&" else r"From<[^&]*Prefix"
        i = k.inst("u32", "from", pat, opt=True)
        if i is not None:
            one("u32::from(%sPrefix)" % ("&" if a[0] == "&" else ""), i, a, ver)
    r = k.render(k.inst("Prefix", "fmt", "Display"), ref(pre), g=g0)
    c.decide("Display", r, [(TRUE, lambda c, g, s, v: (okv(None)(c, g, s, v[1][0]), same(g, v[1][1], arr(chars), "text")))])
    # conversions from numbers and bytes keep the version and give four letters

    def kept(n):
        def e(c, g, s, v):
            u = unwrap(v)
            if u is None:
                raise Unsure("result is " + text_of(v))
            if u[0] == "err":
                return
            f = k.fields(strip(u[1])) or {}
            ch = [x for x in f.values() if is_arr(x) and len(x[1]) == 4]
            if len(ch) != 1:
                raise Unsure("prefix is " + text_of(u[1]))
            I = k.interp()
            o = I.call_whole(k.inst("Prefix", "version"), [u[1]], State(g, s.mem))
            if len(o) != 1:
                raise Unsure("Prefix::version has %d outcomes" % len(o))
            same(g, I.full(*o[0]), n, "version")
            for x in ch[0][1]:
                need(g, in_val(x, LETTERS, 8), "a prefix character that is not a letter")
            t = T("b58c", be32(n) + (0,) * 74)
            same(g, ch[0], arr(byte_terms(t, 4)), "prefix text of a version")
        return e
    n = tv(T("var", "n", w=32))
    bs = byte_terms(T("var", "bs"), 4)
    c.decide("from_bytes(any)", k.run(fb4, [arr(bs)]), [(TRUE, kept(from_be32(bs)))])
    i = k.inst("Prefix", "try_from", r"TryFrom<u32>", opt=True)
    if i is not None:
        c.decide("try_from(any u32)", k.run(i, [n]), [(TRUE, kept(n))])
    i = k.inst("Prefix", "try_from", r"TryFrom<&(.* )?\[u8\]>", opt=True)
    if i is not None:
        c.decide("try_from(4 bytes)", k.run(i, [ref(arr(bs))]), [(TRUE, kept(from_be32(bs)))])
        for m in (0, 1, 3, 5, 8):
            c.decide("try_from(%d bytes)" % m, k.run(i, [ref(arr(byte_terms(T("var", "bs"), m)))]), [(TRUE, is_err)])
        x = T("var", "bs")
        f = eq(len_term(x), 4, 64)
        c.decide("try_from(bytes of any length)", k.run(i, [ref(arr((T("sp", x),)))]), [(Not(f), is_err), (f, kept(from_be32(bs)))])
    # text of unchecked construction
    i = k.inst("Prefix", "from_parts_unchecked", opt=True)
    if i is not None:
        ch = byte_terms(T("var", "t"), 4)
        g1 = Guard()
        for z in ch:
            g1 = g1.assume(in_val(z, LETTERS, 8))[0]

        def parts(c, g, s, v):
            f = k.fields(strip(v)) or {}
            same(g, [x for x in f.values() if is_arr(x)][0], arr(ch), "prefix text")
            same(g, f.get("version"), n, "version")
        c.decide("from_parts_unchecked(four letters)", k.run(i, [ref(("str", bytes_str(ch)[1])), n], g=g1), [(TRUE, parts)])

        def letters_only(c, g, s, v):
            f = k.fields(strip(v)) or {}
            for x in f.values():
                if is_arr(x):
                    for y in x[1]:
                        need(g, in_val(y, LETTERS, 8), "a prefix character that is not a letter")
        for m in (3, 4, 5):
            ch2 = byte_terms(T("var", "t"), m)
            g2 = Guard()
            for z in ch2:
                g2 = g2.assume(in_val(z, ((0, 127),), 8))[0]
            c.decide("from_parts_unchecked(%d ASCII characters)" % m, k.run(i, [ref(("str", bytes_str(ch2)[1])), n], g=g2), [(TRUE, letters_only)], panics=False)


# ------------------------------------------------------------------ C32, C33
def c32(c):
    k = c.k
    x, y = Sym(k, "x"), Sym(k, "y")
    want = And(els_eq(x.key, y.key), eq(x.depth, y.depth, 8), els_eq(x.fp, y.fp), eq(x.cn, y.cn, 32), els_eq(x.cc, y.cc))
    c.decide("==", k.run(k.inst("ExtendedPrivateKey", "eq", "PartialEq"), [ref(x.v), ref(y.v)]), [(TRUE, ret(want, "equality"))])
    ct = k.inst("ExtendedPrivateKey", "ct_eq", "ConstantTimeEq", opt=True)
    if ct is not None:
        def choice(c, g, s, v):
            v = strip(v)
            if isinstance(v, tuple) and v and v[0] == "adt":
                v = v[3][0]
            if type(v) is Term and v.w == 8 or type(v) is int:
                v = Not(eq(v, 0, 8))
            same(g, v, want, "equality")
        c.decide("ct_eq", k.run(ct, [ref(x.v), ref(y.v)]), [(TRUE, choice)])
    ne = k.inst("ExtendedPrivateKey", "ne", "PartialEq", opt=True)
    if ne is not None:
        c.decide("!=", k.run(ne, [ref(x.v), ref(y.v)]), [(TRUE, ret(Not(want), "inequality"))])
    cl = k.inst("ExtendedPrivateKey", "clone", "Clone", opt=True)
    if cl is not None:
        c.decide("clone", k.run(cl, [ref(x.v)]), [(TRUE, lambda c, g, s, v: B32(k).same_xprv(g, s, v, x.key, x.depth, x.fp, x.cn, x.cc, "clone"))])


def c33(c):
    k, b = c.k, B32(c.k)
    p = Sym(k, "p")
    x = byte_terms(T("var", "x"), 33)
    pk = T("pkparse", x)
    q = Sym(k, "q", pub=True)
    one = lambda label, inst, args, want: c.decide(label, k.run(inst, args), [(TRUE, ret(want, label))])
    sk = k.sk("a")
    a = byte_terms(T("var", "a"), 32)
    one("SecretKey::to_bytes", k.inst("SecretKey", "to_bytes", "PrivateKey"), [ref(sk)], arr(a))
    one("SecretKey::public_key", k.inst("SecretKey", "public_key", "PrivateKey"), [ref(sk)], k.pk(T("pkof", a)))
    bs = byte_terms(T("var", "bs"), 32)
    f = sk_ok(bs)
    c.decide("SecretKey::from_bytes", k.run(k.inst("SecretKey", "from_bytes", "PrivateKey"), [ref(arr(bs))]),
             [(f, okv(ret(("adt", "libsecp256k1::SecretKey", 0, (arr(bs),)), "key"))), (Not(f), is_err)])
    one("PublicKey::to_bytes", k.inst("PublicKey", "to_bytes", "PublicKey"), [ref(k.pk(pk))], arr(x))
    one("PublicKey::to_bytes of a private key's", k.inst("PublicKey", "to_bytes", "PublicKey"), [ref(k.pk(T("pkof", a)))],
        arr(byte_terms(T("pkser", T("pkof", a)), 33)))
    f = P("pk_ok", x)
    c.decide("PublicKey::from_bytes", k.run(k.inst("PublicKey", "from_bytes", "PublicKey"), [arr(x)]),
             [(f, okv(ret(k.pk(pk), "key"))), (Not(f), is_err)])
    fp = hash160(x)[:4]
    i = k.inst("PublicKey", "fingerprint", "PublicKey", opt=True)
    if i is not None:
        one("PublicKey::fingerprint", i, [ref(k.pk(pk))], arr(fp))
    one("ExtendedPublicKey::fingerprint", k.inst("ExtendedPublicKey", "fingerprint"), [ref(q.v)], arr(hash160(q.ser)[:4]))
    one("ExtendedPublicKey::to_bytes", k.inst("ExtendedPublicKey", "to_bytes"), [ref(q.v)], arr(q.ser))
    one("ExtendedPublicKey::public_key", k.inst("ExtendedPublicKey", "public_key"), [ref(q.v)], k.pk(q.pk))
    one("ExtendedPrivateKey::to_bytes", k.inst("ExtendedPrivateKey", "to_bytes"), [ref(p.v)], arr(p.key))
    one("ExtendedPrivateKey::private_key", k.inst("ExtendedPrivateKey", "private_key"), [ref(p.v)], k.sk("p.sk"))
    for ty, tr, arg, want in (("SecretKey", r"From<[^&]*ExtendedPrivateKey", p.v, k.sk("p.sk")), ("SecretKey", r"From<&.*ExtendedPrivateKey", ref(p.v), k.sk("p.sk")),
                              ("PublicKey", r"From<[^&]*ExtendedPublicKey", q.v, k.pk(q.pk)), ("PublicKey", r"From<&.*ExtendedPublicKey", ref(q.v), k.pk(q.pk))):
        i = k.inst(ty, "from", tr, opt=True)
        if i is None:
            c.bad("conversion", "the conversion %s for %s does not exist" % (tr, ty))
            continue
        one("%s::from(%sextended key)" % (ty, "&" if arg[0] == "&" else ""), i, [arg], want)
    for ty, z in (("ExtendedPrivateKey", p), ("ExtendedPublicKey", q)):
        c.decide(ty + "::attrs", k.run(k.inst(ty, "attrs"), [ref(z.v)]),
                 [(TRUE, lambda c, g, s, v, z=z: b.same_attrs(g, s, v, z.depth, z.fp, z.cn, z.cc, "attributes"))])


# ------------------------------------------------------------------ C40, C41
def c40(c):
    k = c.k
    inst = k.inst(None, "ecdsa_sign")
    a = byte_terms(T("var", "a"), 32)

    def signed(m):
        sig = T("sig", m, a)
        return ret(("tup", (arr(byte_terms(T("sigser", sig), 64)), tv(T("recid", m, a, w=8)))), "signature")
    x = T("var", "m")
    f = eq(len_term(x), 32, 64)
    m = byte_terms(x, 32)
    c.decide("ecdsa_sign(any message)", k.run(inst, [ref(k.sk("a")), ref(arr((T("sp", x),)))]), [(f, okv(signed(m))), (Not(f), is_err)])
    for n in (0, 1, 16, 20, 31, 32, 33, 40, 63, 64, 65, 128):
        m = byte_terms(x, n)
        c.decide("ecdsa_sign(%d bytes)" % n, k.run(inst, [ref(k.sk("a")), ref(arr(m))]), [(TRUE, okv(signed(m)) if n == 32 else is_err)])


def some(xs, n):
    """at most n of xs, keeping both ends"""
    return xs if len(xs) <= n else xs[:n // 3] + xs[len(xs) - (n - n // 3):]


def hexs(els, upper=False):
    out = []
    for e in els:
        out += [nibble(e, 4, upper), nibble(e, 0, upper)]
    return tuple(out)


def nibble(e, lo, upper):
    h = (e >> lo) & 15 if type(e) is int else mkbv(bits(e, 8)[lo:lo + 4])
    if type(h) is int:
        return ("0123456789ABCDEF" if upper else "0123456789abcdef")[h]
    return T("nib", h, upper)


def c41(c):
    k = c.k
    inst = k.inst(None, "ripemd")
    x = T("var", "m")
    whole = True
    for label, els in [("any message", (T("sp", x),))] + [("%d bytes" % n, byte_terms(x, n)) for n in (0, 1, 20, 32, 33, 64, 65, 200)]:
        h = byte_terms(T("ripemd160", els), 20)
        r = k.run(inst, [ref(arr(els))])
        whole = whole and r.outs is not None
        c.decide("ripemd(%s)" % label, r, [(TRUE, ret(("str", hexs(h)), "text"))])
    if not whole:
        # the code takes the message apart: at least the sizes its constants suggest
        for n in sorted(set(some(k.sizes(inst, 1 << 20), 12)) | set(range(0, 257))):
            els = byte_terms(x, n)
            h = byte_terms(T("ripemd160", els), 20)
            c.decide("ripemd(%d bytes)" % n, k.run(inst, [ref(arr(els))]), [(TRUE, ret(("str", hexs(h)), "text"))])
