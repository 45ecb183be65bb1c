"""Refusals name their reason (C36)."""
from spec import *
from p32 import Sym, step_prv, sk_ok, hard_bit, elt_cases, hmac512, be32
from p39 import B39, langs, decode, key_of, ws, COUNTS, WORDS, SIZES


def reason(k, v):
    """(variant name, payload) of the error a result carries, None for anything but an error"""
    u = unwrap(v)
    if u is None:
        raise Unsure("result is " + text_of(v))
    if u[0] != "err":
        return None
    e = strip(u[1])
    while isinstance(e, tuple) and e and e[0] == "adt" and e[1] == "anyhow::Error":
        e = strip(e[3][0])
    if not (isinstance(e, tuple) and e and e[0] == "adt" and isinstance(e[1], int)):
        raise Unsure("error is " + text_of(e))
    return k.p.types[e[1]]["vars"][e[2]]["n"], e[3]


def refused(k, *kinds):
    """an error of one of the kinds: names, or (name, payload)"""
    names = {x if isinstance(x, str) else x[0]: None if isinstance(x, str) else x[1] for x in kinds}

    def e(c, g, s, v):
        r = reason(k, v)
        if r is None:
            return                      # whether it is refused at all is judged by other properties
        n, payload = r
        if n not in names:
            raise Fail("refused as %s where the reason is %s" % (n, " or ".join(names)))
        if names[n] is not None:
            if len(payload) != 1:
                raise Unsure("payload of %s: %s" % (n, text_of(payload)))
            same(g, payload[0], names[n], "number in " + n)
    return e


def c36(c):
    k = c.k
    b = B39(k)
    b.tables()
    imp, val, fe = k.inst("Mnemonic", "from_phrase"), k.inst("Mnemonic", "validate"), k.inst("Mnemonic", "from_entropy")
    for ln, l in langs(c):
        key = key_of(ln)
        for n in COUNTS:
            listed, ck, _, _ = decode(n, key)
            for nm, i in (("from_phrase", imp), ("validate", val)):
                if n in WORDS:
                    cases = [(And(listed, Not(ck)), refused(k, "InvalidChecksum")), (Not(listed), refused(k, "InvalidWord"))]
                elif n == 0:
                    cases = [(TRUE, refused(k, "InvalidWordLength", "InvalidWord"))]
                else:
                    cases = [(listed, refused(k, ("InvalidWordLength", n))), (Not(listed), refused(k, ("InvalidWordLength", n), "InvalidWord"))]
                c.decide("%s(%d words, %s)" % (nm, n, ln), k.run(i, [ref(string(ws(n))), l]), cases)
        x = T("var", "e")
        for n in list(range(0, 41)) + [48, 64, 128, 8192]:
            if n not in SIZES:
                c.decide("from_entropy(%d bytes, %s)" % (n, ln), k.run(fe, [ref(arr(byte_terms(x, n))), l]), [(TRUE, refused(k, ("InvalidKeysize", 8 * n)))])
    x = tv(T("var", "n", w=64))
    for m, kind, good in (("for_word_count", "InvalidWordLength", (12, 15, 18, 21, 24)), ("for_key_size", "InvalidKeysize", (128, 160, 192, 224, 256))):
        c.decide("%s(any number)" % m, k.run(k.inst("MnemonicType", m), [x]), [(Not(in_val(x, tuple((y, y) for y in good), 64)), refused(k, (kind, x)))])
    fp = k.inst("MnemonicType", "for_phrase")
    for n in range(1, 31):
        if n not in WORDS:
            ph = [p for i in range(n) for p in ((" ",) if i else ()) + (T("wsword", T("var", "ph"), i),)]
            c.decide("for_phrase(%d words)" % n, k.run(fp, [ref(string(*ph))]), [(TRUE, refused(k, ("InvalidWordLength", n)))])
    # BIP32
    root = k.find("ExtendedPrivateKey", "new")
    for i in root["insts"]:
        ts = k.p.tstr(k.p.insts[i]["body"]["locals"][1])
        if last(ts) == "Seed":
            continue
        wrap = ref if ts.startswith("&") else (lambda v: v)
        for n in (0, 1, 15, 16, 17, 32, 64, 65, 127, 128, 129):
            els = byte_terms(T("var", "seed"), n)
            good = n in (16, 32, 64, 128)
            f = sk_ok(hmac512(b"Bitcoin seed", els)[:32])
            c.decide("new(%s of %d bytes)" % (ts, n), k.run(i, [wrap(arr(els))]), [(Not(f), refused(k, "Crypto"))] if good else [(TRUE, refused(k, "SeedLength"))])
    i = tv(T("var", "i", w=32))
    p = Sym(k, "p")
    deep = eq(p.depth, 255, 8)
    cases = [(deep, refused(k, "Depth", "Crypto"))]
    for f, I512, ok1, ok2 in step_prv(p, i):
        cases += [(And(f, Not(deep), Or(Not(ok1), Not(ok2))), refused(k, "Crypto")), (And(f, deep, ok1, ok2), refused(k, "Depth"))]
    c.decide("derive_child of a private key", k.run(k.inst("ExtendedPrivateKey", "derive_child"), [ref(p.v), k.child(i)]), cases)
    q = Sym(k, "q", pub=True)
    deep, h = eq(q.depth, 255, 8), hard_bit(i)
    I512 = hmac512(q.cc, q.ser + be32(i))
    good = And(sk_ok(I512[:32]), P("pkadd_ok", q.pk, I512[:32]))
    c.decide("derive_child of a public key", k.run(k.inst("ExtendedPublicKey", "derive_child"), [ref(q.v), k.child(i)]),
             [(And(h, Not(deep)), refused(k, "ChildNumber")), (And(h, deep), refused(k, "ChildNumber", "Depth")), (And(Not(h), deep, good), refused(k, "Depth")),
              (And(Not(h), deep, Not(good)), refused(k, "Depth", "Crypto")), (And(Not(h), Not(deep), Not(good)), refused(k, "Crypto"))])
    n = tv(T("var", "n", w=32))
    for fl in (FALSE, TRUE):
        c.decide("ChildNumber::new(index, %s)" % (fl is TRUE), k.run(k.inst("ChildNumber", "new"), [n, fl]), [(Not(in_val(n, ((0, (1 << 31) - 1),), 32)), refused(k, "ChildNumber"))])
    cf, pf = k.inst("ChildNumber", "from_str", "FromStr"), k.inst("DerivationPath", "from_str", "FromStr")
    dec = T("dec", tv(T("var", "n", w=32)))
    elt = lambda j: T("elt", T("var", "s"), j)
    for label, parts in (("any text", (T("var", "s"),)), ("<n>", (dec,)), ("<n>'", (dec, "'"))):
        c.decide("ChildNumber::from_str(%s)" % label, k.run(cf, [ref(string(*parts))]), [(f, refused(k, "ChildNumber")) for f, v in elt_cases(parts) if v is None])
    for t in ("", "'", "x", "1''", "2147483648", "-1", "1 "):
        c.decide("ChildNumber::from_str(%r)" % t, k.run(cf, [ref(string(t))]), [(TRUE, refused(k, "ChildNumber"))])
    for m in (1, 2, 3):
        parts = [x_ for j in range(m) for x_ in (("/",) if j else ()) + (elt(j),)]
        f0 = str_eq((elt(0),), ("m",))
        cases = [(Not(f0), refused(k, "Decode", *(("ChildNumber",) if m > 1 else ())))]
        if m > 1:
            cases.append((f0, refused(k, "ChildNumber")))
        c.decide("DerivationPath::from_str of %d elements" % m, k.run(pf, [ref(string(*parts))]), cases)
    for t, kinds in (("", ("Decode",)), ("M", ("Decode",)), ("/", ("Decode", "ChildNumber")), ("0/1", ("Decode",)), ("m/", ("ChildNumber",)), ("m/0/x", ("ChildNumber",)),
                     ("m/0//1", ("ChildNumber",)), ("m/2147483648", ("ChildNumber",)), ("n/0", ("Decode",))):
        c.decide("DerivationPath::from_str(%r)" % t, k.run(pf, [ref(string(t))]), [(TRUE, refused(k, *kinds))])
