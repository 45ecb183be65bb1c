"""Specifications of the BIP39 part (C01-C12)."""
from spec import *
from p32 import hexs, some as few


def words_of(t):
    return [w for w in "".join(" " if ch in WS else ch for ch in t).split(" ") if w]

import sat
import re
import time

SIZES = (16, 20, 24, 28, 32)
TABLE = {"Words12": (128, 4, 12), "Words15": (160, 5, 15), "Words18": (192, 6, 18), "Words21": (224, 7, 21), "Words24": (256, 8, 24)}
WORDS = {12: 128, 15: 160, 18: 192, 21: 224, 24: 256}
LANGS = {"English": "en", "ChineseSimplified": "zh"}


def key_of(name):
    if name not in LANGS:
        raise Unsure("no official list known for language " + name)
    return LANGS[name]


def msb(b):
    """bits of a byte, most significant first"""
    return tuple(bits(b, 8))[::-1]


def from_msb(bs):
    return mkbv(tuple(bs)[::-1])


def encode(key, els):
    """string parts of the phrase of entropy bytes"""
    cs = len(els) * 8 // 32
    h = byte_terms(T("sha256", tuple(els)), 32)[0] if not all(type(e) is int for e in els) else hashlib.sha256(bytes(els)).digest()[0]
    bs = [b for e in els for b in msb(e)] + list(msb(h))[:cs]
    parts = []
    for j in range(len(bs) // 11):
        if j:
            parts.append(" ")
        i = from_msb(bs[11 * j:11 * j + 11])
        parts.append(TABLES[key][i] if type(i) is int else T("word", key, i))
    return string(*parts)


class B39:
    def __init__(self, k):
        self.k = k

    def get(self, g, s, v, m, trait=None):
        return self.k.get(self.k.interp(), State(g, s.mem), v, "Mnemonic", m, trait)

    def is_mnemonic(self, g, s, v, phrase, entropy, lang, what="mnemonic"):
        if entropy is not None:
            same(g, self.get(g, s, v, "entropy"), arr(entropy), what + " entropy")
        same(g, self.get(g, s, v, "language"), lang, what + " language")
        if phrase is not None:
            same(g, self.get(g, s, v, "phrase"), phrase, what + " phrase")

    def tables(self):
        """the reference lists are preloaded; the crate's own are judged by C08"""

    def wordlist(self, lang):
        return self.k.run(self.k.inst("Language", "wordlist"), [ref(lang)])

    def mnemonic(self, els, lang):
        """(state, mnemonic) of from_entropy"""
        r = self.k.run(self.k.inst("Mnemonic", "from_entropy"), [ref(arr(els)), lang])
        if r.outs is None:
            raise Unsure("from_entropy: " + r.why)
        good = [(s, unwrap(r.I.full(s, v))) for s, v in r.outs]
        good = [(s, u[1]) for s, u in good if u and u[0] == "ok"]
        if len(good) != 1:
            raise Unsure("from_entropy has %d successful outcomes" % len(good))
        return good[0]

    def imported(self, n, lang):
        """(state, mnemonic) of a successful import of n whitespace separated words"""
        r = self.k.run(self.k.inst("Mnemonic", "from_phrase"), [ref(string(ws(n))), lang])
        if r.outs is None:
            raise Unsure("from_phrase: " + r.why)
        good = [(s, unwrap(r.I.full(s, v))) for s, v in r.outs]
        good = [(s, u[1]) for s, u in good if u and u[0] == "ok"]
        if len(good) != 1:
            raise Unsure("from_phrase has %d successful outcomes" % len(good))
        return good[0]


def ws(n, name="ph"):
    return T("ws", tuple(T("wsword", T("var", name), i) for i in range(n)))


def langs(c):
    out = []
    for n, l in c.k.langs():
        if n in LANGS:
            out.append((n, l))
    for n in LANGS:
        if n not in [x for x, _ in out]:
            c.bad("Language::" + n, "the language %s is not supported any more" % n)
    return out


def part_fixed(key, n, texts=()):
    """entropies of n bytes with most words settled: (label, elements, all of them known)"""
    t = TABLES[key]
    k = (8 * n + 10) // 11
    word = lambda i: int("".join("{:011b}".format(x) for x in (i * k)[:k])[:8 * n].ljust(8 * n, "0"), 2).to_bytes(n, "big")
    bases = [("zeros", bytes(n)), ("ones", b"\xff" * n), ("ramp", bytes((37 * i + 11) & 255 for i in range(n))), ("long words", word([max(range(2048), key=lambda i: len(t[i]))])),
             ("a word twice in turn", word([7, 7, 1900, 1900, 1024]))]
    named = [i for q in texts for i in [next((i for i, w in enumerate(t) if w == q), next((i for i, w in enumerate(t) if w.startswith(q)), None))] if i is not None]
    bases += [("%r again and again" % t[i], word([i])) for i in dict.fromkeys(named[:4])]
    x = byte_terms(T("var", "e"), n)
    for label, by in bases:
        yield "%d bytes, %s" % (n, label), tuple(by)
    for label, by in bases:
        for at in (0, n // 2 - 1, n - 3) if n in (16, 32) else (n // 2 - 1,):
            yield "%d bytes, %s, any 3 at %d" % (n, label, at), tuple(by[:at]) + tuple(x[at:at + 3]) + tuple(by[at + 3:])


# ------------------------------------------------------------------ C01
def c01(c):
    b = B39(c.k)
    b.tables()
    inst = c.k.inst("Mnemonic", "from_entropy")
    for ln, l in langs(c):
        every_entropy(c, ln, "from_entropy(%%s, %s)" % ln, inst, lambda key, els: [ref(arr(els)), l], l)


def every_entropy(c, ln, title, inst, args, l):
    """mnemonics of entropy of every size; where all of them at once do not settle, of many partly settled ones"""
    b, key = B39(c.k), key_of(ln)
    lost = False

    def one(label, els):
        c.decide(title % label, c.k.run(inst, args(key, els)), [(TRUE, okv(lambda cc, g, s, v: b.is_mnemonic(g, s, v, encode(key, els), els, l)))])
        return c.obl[-1][0]
    for n in SIZES:
        if lost:
            c.unsure(title % ("any %d bytes" % n), "not settled for fewer bytes")
        elif one("any %d bytes" % n, byte_terms(T("var", "e"), n)) != "undecided":
            continue
        lost = True
        for label, els in part_fixed(key, n, c.k.texts(inst)):
            if one(label, els) == "violated":
                break


# ------------------------------------------------------------------ C02, C03, C07
def decode(n, key):
    """(conditions, entropy, phrase) of n words"""
    q = [T("nfkd", T("wsword", T("var", "ph"), i)) for i in range(n)]
    fs, idx = [], []
    for x in q:
        f, i = in_list(key, x)
        fs.append(f)
        idx.append(i)
    listed = And(*fs)
    phrase = string(*[p for i, x in enumerate(q) for p in ((" ", x) if i else (x,))])
    if n not in WORDS:
        return listed, FALSE, None, phrase
    bs = [b for i in idx for b in tuple(bits(i, 11))[::-1]]
    ent = tuple(from_msb(bs[8 * j:8 * j + 8]) for j in range(WORDS[n] // 8))
    h = byte_terms(T("sha256", ent), 32)[0]
    cs = n // 3
    ck = And(*[Eqs([(ff(x), ff(y))]) if False else bit_eq(x, y) for x, y in zip(bs[WORDS[n]:], list(msb(h))[:cs])])
    return listed, ck, ent, phrase


COUNTS = tuple(range(0, 31)) + (33, 36, 48)


def by_count(c, title, n, inst, l, cases):
    """n unknown words; nothing more is tried once fewer words were too many for the analysis"""
    lost = c.__dict__.setdefault("too_many", {})
    if n >= lost.get(title, 99):
        c.unsure(title % n, "not settled for %d words" % lost[title])
        return
    t = time.time()
    r = c.k.run(inst, [ref(string(ws(n))), l])
    if r.outs is None and any(w in str(r.why) for w in ("too many", "budget", "converge")) or time.time() - t > 30:
        lost[title] = n + 1
    c.decide(title % n, r, cases)


def import_cases(c, part):
    """cases of from_phrase by word count; part selects what is judged"""
    b = B39(c.k)
    b.tables()
    inst = c.k.inst("Mnemonic", "from_phrase")
    for ln, l in langs(c):
        key = key_of(ln)
        for n in COUNTS:
            if part != "accept" and n not in WORDS:
                continue
            listed, ck, ent, phrase = decode(n, key)
            f = And(listed, ck)

            def exp(cc, g, s, v, ent=ent, phrase=phrase):
                if part == "accept":
                    return
                if part == "entropy":
                    b.is_mnemonic(g, s, v, None, ent, l)
                if part == "phrase":
                    same(g, b.get(g, s, v, "phrase"), phrase, "phrase")
            if part == "accept":
                cases = [(f, is_ok), (And(listed, Not(ck)), is_err), (Not(listed), is_err)]
            else:
                cases = [(f, okv(exp))]
                if part == "phrase" or part == "entropy":
                    # an accepted phrase outside the condition is C02's business, its contents are judged all the same
                    def rest(cc, g, s, v, exp=exp):
                        u = unwrap(v)
                        if u and u[0] == "ok":
                            exp(cc, g, s, u[1])
                    cases.append((Not(f), rest))
            by_count(c, "from_phrase(%%d words, %s)" % ln, n, inst, l, cases)


def real_words(key, n, off):
    """a phrase of n listed words and whether its checksum is right (reference computation on constants)"""
    t = TABLES[key]
    idx = [(off + 7 * i * i + 13 * i) % 2048 for i in range(n)]
    return idx, [t[i] for i in idx]


def checksum_ok(idx):
    n = len(idx)
    if n not in WORDS:
        return None
    v = 0
    for i in idx:
        v = v << 11 | i
    cs = n // 3
    e = (v >> cs).to_bytes(WORDS[n] // 8, "big")
    return e if hashlib.sha256(e).digest()[0] >> (8 - cs) == v & ((1 << cs) - 1) else None


def c02(c):
    import_cases(c, "accept")
    k = c.k
    vi = k.inst("Mnemonic", "validate")
    for ln, l in langs(c):
        key = key_of(ln)
        for n in COUNTS:
            listed, ck, _, _ = decode(n, key)
            f = And(listed, ck)
            by_count(c, "validate(%%d words, %s)" % ln, n, vi, l, [(f, is_ok), (And(listed, Not(ck)), is_err), (Not(listed), is_err)])
    # fixed texts: validity computed by the reference rule
    import unicodedata
    fp = k.inst("Mnemonic", "from_phrase")
    for ln, l in langs(c):
        key = key_of(ln)
        other = [TABLES[x] for x in set(LANGS.values()) if x != key][0]
        texts = []
        for n in sorted(WORDS):
            idx, w = real_words(key, n, 5)
            cs = n // 3
            for last_ in range(0, 2048):
                if checksum_ok(idx[:-1] + [last_]):
                    w = w[:-1] + [TABLES[key][last_]]
                    break
            texts += [w, w[:-1] + [TABLES[key][(last_ + 1) % 2048]], w[1:], w + w[:1], w[:-1], [w[0].upper()] + w[1:], w[:2] + ["zzzz"] + w[3:],
                      w[:-1] + [other[7]], w[:-1] + [w[-1] + "x"], w[:-1] + [w[-1][:-1]], w[::-1]]
        valid = texts[0]
        texts += [valid + [x] for x in ("a", "zz", "1", "the", "word")] + [[x] + valid for x in ("a", "12", "of")] + [valid[:6] + ["is"] + valid[6:], valid * 2, valid + valid[-1:], valid[:5] + valid[4:], valid + [valid[-1]] * 3]
        texts = [" ".join(w) for w in texts]
        texts += [sep.join(valid) for sep in ("  ", "\t", "\n", "\r\n", "\u00a0", "\u0085", "\u1680", "\u2003", "\u2028", "\u3000", "-", "\u200b", ",", "\0")]
        marks = list(dict.fromkeys(["\ufeff", "\u200d", "\u00ad", "\u0301", "\u2060", ".", "\"", "1. "] + k.texts(fp)))
        for x in marks:
            v_ = " ".join(valid)
            texts += [x + v_, v_ + x, x + " " + v_, " ".join(valid[:3]) + x + " ".join(valid[3:]), " ".join(valid[:2] + [valid[2][:1] + x + valid[2][1:]] + valid[3:])]
        texts = list(dict.fromkeys(texts))
        texts += ["\u2029" + " ".join(valid) + "\u3000\n", " " + " ".join(valid), " ".join(valid) + " ", "\u200b" + " ".join(valid)]
        for t in texts:
            w = words_of(t) or [""]
            ws_ = [unicodedata.normalize("NFKD", x) for x in words_of(t)]
            good = len(ws_) in WORDS and all(x in INDEX[key] for x in ws_) and checksum_ok([INDEX[key][x] for x in ws_]) is not None
            for m, i in (("from_phrase", fp), ("validate", vi)):
                c.decide("%s(%d fixed words %s.. %s)" % (m, len(w), w[0], hashlib.sha256(t.encode()).hexdigest()[:6]), k.run(i, [ref(string(t)), l]), [(TRUE, is_ok if good else is_err)])


def c03(c):
    import_cases(c, "entropy")
    # entropy -> phrase -> entropy
    k, b = c.k, B39(c.k)
    inst = k.inst("Mnemonic", "from_phrase")
    for ln, l in langs(c):
        key = key_of(ln)
        every_entropy(c, ln, "from_phrase(phrase of %%s, %s)" % ln, inst, lambda key, els: [ref(encode(key, els)), l], l)


def c07(c):
    import_cases(c, "phrase")
    # the seed depends on the stored phrase only: spellings are gone after import
    k, b = c.k, B39(c.k)
    import unicodedata
    fp = k.inst("Mnemonic", "from_phrase")
    for ln, l in langs(c):
        key = key_of(ln)
        idx, w = real_words(key, 12, 5)
        for last_ in range(2048):
            if checksum_ok(idx[:-1] + [last_]):
                w = w[:-1] + [TABLES[key][last_]]
                break
        canon_ = " ".join(w)
        for label, t in (("leading space", " " + canon_), ("trailing newline", canon_ + "\n"), ("double spaces", "  ".join(w)), ("tabs", "\t".join(w)),
                         ("ideographic spaces", "\u3000".join(w)), ("mixed", "\r\n ".join(w) + " \u2003"), ("no-break spaces", "\u00a0".join(w)),
                         ("vertical tab and form feed", "\x0b".join(w) + "\x0c"),
                         ("full width", "".join(chr(ord(ch) + 0xFEE0) if "a" <= ch <= "z" else ch for ch in canon_)),
                         ("NFC", unicodedata.normalize("NFC", canon_))):
            c.decide("from_phrase(%s, %s)" % (label, ln), k.run(fp, [ref(string(t)), l]),
                     [(TRUE, okv(lambda cc, g, s, v: same(g, b.get(g, s, v, "phrase"), ("str", (canon_,)), "phrase")))])


# ------------------------------------------------------------------ C04, C05
def c04(c):
    k, b = c.k, B39(c.k)
    b.tables()
    inst = k.inst("Mnemonic", "from_entropy")
    x = T("var", "e")
    for ln, l in langs(c):
        for n in list(range(0, 41)) + [48, 56, 64, 128, 256, 8192]:
            els = byte_terms(x, n)
            c.decide("from_entropy(%d bytes, %s)" % (n, ln), k.run(inst, [ref(arr(els)), l]), [(TRUE, is_ok if n in SIZES else is_err)])
        L = len_term(x)
        good = in_val(L, tuple((n, n) for n in SIZES), 64)
        r = k.run(inst, [ref(arr((T("sp", x),))), l], g=Guard().assume(Not(good))[0])
        c.decide("from_entropy(refused lengths, %s)" % ln, r, [(TRUE, is_err)])
        # a path that goes on with entropy of unknown length: look at lengths that take it
        for g, why, where in r.I.lost[:8]:
            if any(o[0] == "violated" for o in c.obl):
                break
            ns = [n for n in list(range(4200)) + [(1 << e) + d for e in range(12, 17) for d in (0,) + SIZES] if sat.holds(g, {x: bytes(n)})]
            for n in ns[:1]:
                c.decide("from_entropy(%d bytes, %s)" % (n, ln), k.run(inst, [ref(arr(byte_terms(x, n))), l]), [(TRUE, is_ok if n in SIZES else is_err)])
        new = k.inst("Mnemonic", "new")
        for tn, t in k.mtypes():
            if tn not in TABLE:
                continue

            def exp(cc, g, s, v, tn=tn, l=l):
                e = strip(b.get(g, s, v, "entropy"))
                if not is_arr(e):
                    raise Unsure("entropy is " + text_of(e))
                if len(e[1]) * 8 != TABLE[tn][0]:
                    raise Fail("entropy of %d bytes" % len(e[1]))
                same(g, b.get(g, s, v, "language"), l, "language")
            c.decide("new(%s, %s)" % (tn, ln), k.run(new, [t, l]), [(TRUE, exp)])


def c05(c):
    k, b = c.k, B39(c.k)
    b.tables()
    new = k.inst("Mnemonic", "new")
    for ln, l in langs(c):
        key = key_of(ln)
        for tn, t in k.mtypes():
            if tn not in TABLE:
                continue

            def exp(cc, g, s, v, tn=tn, key=key):
                e = strip(b.get(g, s, v, "entropy"))
                if not is_arr(e):
                    raise Unsure("entropy is " + text_of(e))
                seen = set()
                for i, x in enumerate(e[1]):
                    if has_top(x):
                        raise Unsure(has_top(x))
                    r = recover(x) if isT(x, "bv") else None
                    y = r[1] if r and r[0] == "z" and r[2] == 0 else x if isT(x) else None
                    if not isT(y, "rand"):
                        if not any(z.op == "rand" for z in leaves(x)):
                            raise Fail("byte %d of the entropy is %s, not generator output" % (i, text_of(x)))
                        raise Fail("byte %d of the entropy is %s, not a generator byte as drawn" % (i, text_of(x)))
                    if not secure(y.args[0]):
                        raise Fail("byte %d of the entropy is drawn from %s" % (i, y.args[0]))
                    if y in seen:
                        raise Fail("byte %d of the entropy repeats another byte" % i)
                    seen.add(y)
                # the phrase encodes these very bytes
                same(g, b.get(g, s, v, "phrase"), encode(key, e[1]), "phrase")
            c.decide("new(%s, %s)" % (tn, ln), k.run(new, [t, l]), [(TRUE, exp)])


def secure(src):
    return src in ("thread_rng", "os_rng", "OsRng", "ThreadRng", "getrandom")


# ------------------------------------------------------------------ C06
def fixed_seeds(c, ln, l, inst, passwords):
    """seeds of known phrases"""
    k, b, key = c.k, B39(c.k), key_of(ln)
    ab = k.inst("Mnemonic", "as_bytes", opt=True)
    for n in (16, 32):
        for label, els in part_fixed(key, n, k.texts(inst) + [w for w in (k.texts(ab) if ab is not None else ())]):
            if not all(type(e) is int for e in els):
                continue
            try:
                s, m = b.mnemonic(els, l)
            except (Unsure, Undecided) as e:
                c.unsure("mnemonic of %s, %s" % (label, ln), str(e))
                continue
            ph = str_bytes(encode(key, els)[1])
            pb = (T("sp", T("gb18030", ph)),) if key == "zh" else ph
            for pl, arg, salt in passwords:
                want = byte_terms(T("pbkdf2", "hmac-sha512", pb, tuple(b"mnemonic") + salt, 2048), 64)

                def exp(cc, g, s2, v, want=want):
                    same(g, k.get(k.interp(), State(g, s2.mem), v, "Seed", "as_bytes"), arr(want), "seed")
                c.decide("Seed::new(mnemonic of %s %s, %s)" % (label, ln, pl), k.run(inst, [ref(m), ref(arg)], g=s.g, mem=s.mem), [(TRUE, exp)])


def c06(c):
    k, b = c.k, B39(c.k)
    b.tables()
    inst = k.inst("Seed", "new")
    pw = T("var", "pw")
    anyp = (T("sp", T("nfkd", pw)),)
    pre = tuple(b"mnemonic")

    def passwords():
        yield "any passphrase", string(pw), anyp
        yield "empty passphrase", string(""), ()
        yield "ASCII passphrase with case and spaces", string(" TREZOR  Pass "), tuple(b" TREZOR  Pass ")
        import unicodedata
        fixed = ["\u00e9\u212b \u3000\ufb01", "e\u0301", "\u0301abc", "\u3042\u304c\u4e2d"]
        fixed += [q for x in dict.fromkeys(["\0", "\ufeff", "\u200b", "\n", "'", "mnemonic"] + k.texts(inst, 12)) for q in (x, x + "Pw" + x, "P" + x + "w")]
        fixed += [("Pw%d " % n * n)[:n] for n in [31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 1000, 5000] + few(k.sizes(inst, 1 << 13), 16)]
        for t in fixed:
            yield "passphrase %.20r of %d" % (t, len(t)), string(t), tuple(unicodedata.normalize("NFKD", "mnemonic" + t).encode()[8:])
        yield "passphrase in pieces", string(T("elt", pw, 0), " ", T("elt", pw, 1)), None

    for ln, l in langs(c):
        key = key_of(ln)
        for kind_ in ("entropy", "import"):
            for n in (SIZES if kind_ == "entropy" else sorted(WORDS)):
                try:
                    if kind_ == "entropy":
                        s, m = b.mnemonic(byte_terms(T("var", "e"), n), l)
                        ph = encode(key, byte_terms(T("var", "e"), n))
                    else:
                        s, m = b.imported(n, l)
                        ph = decode(n, key)[3]
                except (Unsure, Undecided) as e:
                    c.unsure("mnemonic by %s of %d, %s" % (kind_, n, ln), str(e))
                    continue
                pb = str_bytes(ph[1])
                if key == "zh":
                    pb = (T("sp", T("gb18030", pb)),)
                for label, arg, salt in passwords():
                    if n not in (16, 12) and label != "any passphrase":
                        continue
                    if salt is None:
                        salt = (T("sp", T("nfkd", T("elt", pw, 0))), 32, T("sp", T("nfkd", T("elt", pw, 1))))
                    want = byte_terms(T("pbkdf2", "hmac-sha512", pb, pre + salt, 2048), 64)

                    def exp(cc, g, s2, v, want=want):
                        same(g, k.get(k.interp(), State(g, s2.mem), v, "Seed", "as_bytes"), arr(want), "seed")
                    c.decide("Seed::new(mnemonic of %s %d %s, %s)" % (kind_, n, ln, label),
                             k.run(inst, [ref(m), ref(arg)], g=s.g, mem=s.mem), [(TRUE, exp)])
                if kind_ == "entropy" and n == 16:
                    fixed_seeds(c, ln, l, inst, [q for q in passwords() if q[2] is not None][:3])
                # the password itself
                ab = k.inst("Mnemonic", "as_bytes", opt=True)
                if ab is not None and n in (16, 12):
                    c.decide("Mnemonic::as_bytes(%s %d %s)" % (kind_, n, ln), k.run(ab, [ref(m)], g=s.g, mem=s.mem), [(TRUE, ret(arr(pb), "bytes"))])


# ------------------------------------------------------------------ C08, C09
def c08(c):
    k, b = c.k, B39(c.k)
    wl, wm = k.inst("Language", "wordlist"), k.inst("Language", "wordmap")
    gw, gb = k.inst("WordList", "get_word"), k.inst("WordMap", "get_bits")
    fr = k.inst("Bits11", "from", "From<u16>")
    to = k.inst("u16", "from", r"From<.*Bits11")
    b.tables()
    i = tv(T("var", "i", w=16))
    inr = in_val(i, ((0, 2047),), 16)
    for ln, l in langs(c):
        key = key_of(ln)
        a, m = k.run(wl, [ref(l)]), k.run(wm, [ref(l)])
        if a.outs is None or m.outs is None or len(a.outs) != 1 or len(m.outs) != 1:
            c.unsure("tables of " + ln, "%s / %s" % (a.why, m.why))
            continue
        sa, va = a.outs[0]
        va = a.I.full(sa, va)
        sm, vm = m.outs[0]
        vm = m.I.full(sm, vm)
        # word at every position
        g0 = Guard().assume(inr)[0]
        rb = k.run(fr, [i], g=g0)
        if rb.outs is None or len(rb.outs) != 1:
            c.unsure("Bits11 of " + ln, str(rb.why))
            continue
        bits11 = rb.I.full(rb.outs[0][0], rb.outs[0][1])
        c.decide("word at any position, " + ln, k.run(gw, [va, bits11], g=g0), [(TRUE, ret(("str", (T("word", key, trunc(i, 11)),)), "word"))])
        for n in (0, 1, 2, 1023, 1024, 2046, 2047) if c.obl[-1][0] == "proved" else range(2048):
            x = k.run(fr, [n])
            bn = x.I.full(*x.outs[0])
            c.decide("word at %d, %s" % (n, ln), k.run(gw, [va, bn]), [(TRUE, ret(("str", (TABLES[key][n],)), "word"))])

        def num(want):
            def e(cc, g, s, v):
                o = k.interp().call_whole(to, [v], State(g, s.mem))
                if len(o) != 1:
                    raise Unsure("u16 of Bits11 has %d outcomes" % len(o))
                same(g, k.interp().full(*o[0]), want, "position")
            return e
        # looking up the word at any position gives the position
        c.decide("position of the word at any position, " + ln, k.run(gb, [vm, ref(string(T("word", key, trunc(i, 11))))], g=g0), [(TRUE, okv(num(i)))])
        proved = c.obl[-1][0] == "proved"
        # any text
        x = T("var", "w")
        f, ix = in_list(key, x)
        c.decide("position of any text, " + ln, k.run(gb, [vm, ref(string(x))]),
                 [(f, okv(num(mkbv(bits(ix, 11) + (0,) * 5)))), (Not(f), is_err)])
        # a word of another list
        for ok_ in set(TABLES) & set(LANGS.values()) - {key}:
            ot = [w for w in TABLES[ok_] if w not in INDEX[key]]
            for w in (ot[0], ot[-1], ot[len(ot) // 2]):
                c.decide("word %s of another list in %s" % (w, ln), k.run(gb, [vm, ref(string(w))]), [(TRUE, is_err)])
        t = TABLES[key]
        for n in (0, 1, 1024, 2046, 2047) if proved else range(2048):
            c.decide("position of %s, %s" % (t[n], ln), k.run(gb, [vm, ref(string(t[n]))]), [(TRUE, okv(num(n)))])
        for w in ("", " ", t[0] + " ", " " + t[0], t[0].upper() if key == "en" else t[0] + t[0], t[0] + "x", t[5][:-1] + "\u00df", t[0] + "\0"):
            if w in INDEX[key]:
                continue
            c.decide("unlisted %r, %s" % (w, ln), k.run(gb, [vm, ref(string(w))]), [(TRUE, is_err)])
    # Bits11 carries the number
    c.decide("Bits11 there and back", k.run(fr, [i], g=Guard().assume(inr)[0]),
             [(TRUE, lambda cc, g, s, v: same(g, one_out(k, to, v, g, s), i, "number"))])


def one_out(k, inst, v, g, s):
    I = k.interp()
    o = I.call_whole(inst, [v], State(g, s.mem))
    if len(o) != 1:
        raise Unsure("%d outcomes" % len(o))
    return I.full(*o[0])


def chosen(g, v):
    """the constant words of a result"""
    if isinstance(v, tuple) and v and v[0] == "cond" and len(v) == 3:
        keep = []
        for it, f in zip(v[1], v[2]):
            e = g.eval(f)
            if e is None:
                raise Unsure("membership of %s" % text_of(it))
            if e:
                keep.append(it)
        v = ("arr", tuple(keep))
    if not is_arr(v):
        raise Unsure("result is " + text_of(v))
    got = [strip(z) for z in v[1]]
    for z in got:
        if not is_str(z) or not all(isinstance(q, str) for q in z[1]):
            raise Unsure("result is " + text_of(z))
    return ["".join(z[1]) for z in got]


def c09(c):
    k, b = c.k, B39(c.k)
    inst = k.inst("WordList", "get_words_by_prefix")
    for ln, l in langs(c):
        key = key_of(ln)
        a = b.wordlist(l)
        if a.outs is None or len(a.outs) != 1:
            c.unsure("list of " + ln, str(a.why))
            continue
        sa, va = a.outs[0]
        va = a.I.full(sa, va)
        t = TABLES[key]
        prefix_classes(key)
        reps, exact_ = CLASSES[key]
        pc = T("var", "pc", w=16)
        x = T("pick", key, tv(pc))
        g0 = Guard().assume(in_val(tv(pc), ((0, len(reps) - 1),), 16))[0]
        begins = {}
        for w in t:
            for n in range(len(w) + 1):
                begins.setdefault(w[:n], []).append(w)

        def sym(cc, g, s, v):
            v = strip(v)
            names = chosen(g, v)
            for lo, hi in g.term_ivs(pc):
                for j in range(lo, hi + 1):
                    want = begins.get(reps[j], [])
                    if names != want:
                        raise Fail("prefix %r gives %d words %s.. instead of %d words %s.." % (reps[j], len(names), names[:3], len(want), want[:3]))
                    cc.n_classes = getattr(cc, "n_classes", 0) + 1
        c.decide("every class of prefix, " + ln, k.run(inst, [va, ref(string(x))], g=g0), [(TRUE, sym)])
        ps = {"", " ", "zzzz", "A", "\u00df", "\uffff", t[0], t[-1], t[0] + "x", t[-1] + "x", t[0][:1], t[-1][:1], "\u4e00", "a", "z", "ab", "st", "x", "y"}
        if c.obl[-1][0] != "undecided":
            ps = {"", "zzzz", t[0], t[-1] + "x"}
        for q in ["\ufeff", "\n", "'", "\u0301"] + k.texts(inst, 12):
            ps |= {q, t[0] + q, q + t[0], t[7][:2] + q}
        if c.obl[-1][0] == "undecided":
            for i in range(100, 2048, 400):
                for n in range(1, len(t[i]) + 1):
                    ps.add(t[i][:n])
            for n in {len(w) for w in t}:
                # listed words of every length, and what only looks like them
                w = [w for w in t if len(w) == n]
                for w in {w[0], w[len(w) // 2], w[-1]}:
                    ps |= {w, w + "s", w + w[-1], w + w, w + " ", " " + w, w.upper(), w[:-1] + "\uffff"}
            ps |= {t[0] * n for n in (3, 8, 40)}
        for p in sorted(ps):
            want = ("arr", tuple(("str", (w,)) for w in t if w.startswith(p)))

            def exact(cc, g, s, v, want=want):
                got = chosen(g, strip(v))
                want = [z[1][0] for z in want[1]]
                if got != want:
                    raise Fail("%d words %s.. instead of %d words %s.." % (len(got), got[:3], len(want), want[:3]))
            c.decide("prefix %r, %s" % (p, ln), k.run(inst, [va, ref(string(p))]), [(TRUE, exact)])


# ------------------------------------------------------------------ C10, C11
def written(*nums):
    """the numbers in a rendering, in order"""
    def e(c, g, s, v):
        st, t = v[1]
        u = unwrap(st)
        if not u or u[0] != "ok":
            raise Fail("rendering fails")
        if not is_str(t) or not all(isinstance(x, str) for x in t[1]):
            raise Unsure("rendering is " + text_of(t))
        got = [int(x) for x in re.findall("[0-9]+", "".join(t[1]))]
        if got != list(nums):
            raise Fail("%r shows the numbers %s instead of %s" % ("".join(t[1]), got, list(nums)))
    return e


def c10(c):
    k = c.k
    ts = dict(k.mtypes())
    for n in TABLE:
        if n not in ts:
            raise Missing("MnemonicType::" + n)
    for n, t in ts.items():
        if n not in TABLE:
            c.bad("MnemonicType::" + n, "a type outside the BIP39 table")
            continue
        e, s, w = TABLE[n]
        for m, want in (("entropy_bits", e), ("checksum_bits", s), ("word_count", w), ("total_bits", e + s)):
            c.decide("%s(%s)" % (m, n), k.run(k.inst("MnemonicType", m), [ref(t)]), [(TRUE, ret(want, m))])
        if k.inst("MnemonicType", "fmt", "Display", opt=True) is not None:
            for alt in (False,):
                c.decide("Display of %s" % n, k.render(k.inst("MnemonicType", "fmt", "Display"), ref(t)), [(TRUE, written(w, e))])
    x = tv(T("var", "n", w=64))

    def table(col):
        cases, rest = [], TRUE
        for n, row in TABLE.items():
            f = in_val(x, ((row[col], row[col]),), 64)
            cases.append((f, okv(ret(ts[n], "type"))))
            rest = And(rest, Not(f))
        return cases + [(rest, is_err)]
    c.decide("for_word_count(any)", k.run(k.inst("MnemonicType", "for_word_count"), [x]), table(2))
    c.decide("for_key_size(any)", k.run(k.inst("MnemonicType", "for_key_size"), [x]), table(0))
    by = {row[2]: n for n, row in TABLE.items()}
    bye = {row[0]: n for n, row in TABLE.items()}
    for n in list(range(0, 40)) + [48, 255, 256, 268, (1 << 32) + 12, (1 << 64) - 1]:
        c.decide("for_word_count(%d)" % n, k.run(k.inst("MnemonicType", "for_word_count"), [n]), [(TRUE, okv(ret(ts[by[n]], "type")) if n in by else is_err)])
    for n in list(range(0, 300, 4)) + [127, 129, 255, 257, 512, (1 << 32) + 128, (1 << 64) - 1]:
        c.decide("for_key_size(%d)" % n, k.run(k.inst("MnemonicType", "for_key_size"), [n]), [(TRUE, okv(ret(ts[bye[n]], "type")) if n in bye else is_err)])
    fp = k.inst("MnemonicType", "for_phrase")
    for n in list(range(1, 31)) + [36, 48, 268]:
        ws_ = [p for i in range(n) for p in ((" ",) if i else ()) + (T("wsword", T("var", "ph"), i),)]
        c.decide("for_phrase(%d words)" % n, k.run(fp, [ref(string(*ws_))]), [(TRUE, okv(ret(ts[by[n]], "type")) if n in by else is_err)])
    for n in (11, 12, 13, 24):
        t = " ".join("abandon" if i % 2 else "zoo" for i in range(n))
        c.decide("for_phrase(%d fixed words)" % n, k.run(fp, [ref(string(t))]), [(TRUE, okv(ret(ts[by[n]], "type")) if n in by else is_err)])


def c11(c):
    k, b = c.k, B39(c.k)
    b.tables()
    ls = dict(langs(c))
    inst = k.inst("Language", "from_language_code")
    codes = {"en": "English", "zh-cn": "ChineseSimplified"}
    x = T("var", "c")
    lo = T("aslower", x)
    f1, f2 = streq_const(lo, "en"), streq_const(lo, "zh-cn")
    r = k.run(inst, [ref(string(x))])
    c.decide("from_language_code(any text)", r, [(f1, okv(ret(ls.get("English"), "language"))), (And(Not(f1), f2), okv(ret(ls.get("ChineseSimplified"), "language"))),
                                                 (And(Not(f1), Not(f2)), is_err)])
    for t in ("en", "EN", "En", "eN", "zh-cn", "ZH-CN", "zh-CN", "Zh-cN", "", "e", "n", "en ", " en", "eng", "en-us", "zh", "zh_cn", "zhcn", "zh-tw", "zh-hans", "zh-cn ",
              "cn", "english", "\uff45\uff4e", "e\u0274", "zh\u2010cn", "zh-\u212an", "fr", "ja", "ko", "es", "it", "en\0", "zh-hk", "zh-c", "zh-cnn", "zh--cn"):
        a = "".join(chr(ord(ch) + 32) if "A" <= ch <= "Z" else ch for ch in t)
        want = okv(ret(ls.get(codes[a]), "language")) if a in codes else is_err
        c.decide("from_language_code(%r)" % t, k.run(inst, [ref(string(t))]), [(TRUE, want)])
    if c.obl and any(o[0] == "undecided" for o in c.obl):
        for t in hostile():
            c.decide("from_language_code(%.12r of %d)" % (t, len(t)), k.run(inst, [ref(string(t))]), [(TRUE, is_err)])
    det = k.inst("Language", "from_phrase")
    for n in (1, 2, 12, 24):
        w = T("wsword", T("var", "ph"), 0)
        e, _ = in_list("en", w)
        z, _ = in_list("zh", w)
        c.decide("from_phrase(%d words)" % n, k.run(det, [ref(string(ws(n)))]),
                 [(e, okv(ret(ls.get("English"), "language"))), (And(Not(e), z), okv(ret(ls.get("ChineseSimplified"), "language"))), (And(Not(e), Not(z)), is_err)])
    c.decide("from_phrase(no words)", k.run(det, [ref(string(ws(0)))]), [(TRUE, is_err)])
    en, zh = TABLES["en"], TABLES["zh"]
    for t in ("", " ", "\n\t", en[0], " " + en[3], en[2047] + " x", en[0] + " " + zh[0], zh[0] + " " + en[0], zh[2047], "\u3000" + zh[5], en[0] + zh[0], en[0].upper(),
              "zzzz " + en[0], "x", en[9] + "\n" + zh[3], "\u00a0" + en[7] + "\u00a0", "\x0b" + zh[9]):
        w = words_of(t)
        want = "English" if w and w[0] in INDEX["en"] else "ChineseSimplified" if w and w[0] in INDEX["zh"] else None
        c.decide("from_phrase(%r)" % t, k.run(det, [ref(string(t))]), [(TRUE, okv(ret(ls.get(want), "language")) if want else is_err)])


def hostile():
    """texts at whose every offset some character is cut in two"""
    for ch in ("\u00e9", "\u5b57", "\U0001f511"):
        for n in list(range(1, 14)) + [32, 64]:
            for pre in ("", "a", "ab"):
                yield pre + ch * n
                yield pre + ch * n + "'"
                yield pre + ch * n + "a"


# ------------------------------------------------------------------ C12
def c12(c):
    from fmtm import NOSPEC, ALT
    k, b = c.k, B39(c.k)
    b.tables()
    alt = (NOSPEC[0] | ALT,) + tuple(NOSPEC[1:])

    def text(want):
        return lambda cc, g, s, v: (okv(None)(cc, g, s, v[1][0]), same(g, v[1][1], want, "text"))
    for ln, l in langs(c):
        key = key_of(ln)
        for label, mk in (("entropy 16", lambda: (b.mnemonic(byte_terms(T("var", "e"), 16), l), encode(key, byte_terms(T("var", "e"), 16)), byte_terms(T("var", "e"), 16))),
                          ("entropy 20", lambda: (b.mnemonic(byte_terms(T("var", "e"), 20), l), encode(key, byte_terms(T("var", "e"), 20)), byte_terms(T("var", "e"), 20))),
                          ("entropy 32", lambda: (b.mnemonic(byte_terms(T("var", "e"), 32), l), encode(key, byte_terms(T("var", "e"), 32)), byte_terms(T("var", "e"), 32))),
                          ("import 15", lambda: (b.imported(15, l), decode(15, key)[3], decode(15, key)[2]))):
            try:
                (s, m), ph, ent = mk()
            except (Unsure, Undecided) as e:
                c.unsure("mnemonic %s %s" % (label, ln), str(e))
                continue
            lab = " of mnemonic (%s, %s)" % (label, ln)
            for nm, inst, arg in (("phrase", k.inst("Mnemonic", "phrase"), ref(m)), ("as_ref", k.inst("Mnemonic", "as_ref", "AsRef<str>"), ref(m)),
                                  ("into_phrase", k.inst("Mnemonic", "into_phrase"), m), ("String::from", k.inst("String", "from", r"From<.*Mnemonic"), m)):
                c.decide(nm + lab, k.run(inst, [arg], g=s.g, mem=s.mem), [(TRUE, ret(ph, "text"))])
            c.decide("entropy" + lab, k.run(k.inst("Mnemonic", "entropy"), [ref(m)], g=s.g, mem=s.mem), [(TRUE, ret(arr(ent), "entropy"))])
            c.decide("Display" + lab, k.render(k.inst("Mnemonic", "fmt", "Display"), ref(m), g=s.g), [(TRUE, text(ph))])
            for tr, up in (("LowerHex", False), ("UpperHex", True)):
                i = k.inst("Mnemonic", "fmt", tr)
                h = hexs(ent, up)
                c.decide(tr + lab, k.render(i, ref(m), g=s.g), [(TRUE, text(string(*h)))])
                c.decide("alternate " + tr + lab, k.render(i, ref(m), alt, g=s.g), [(TRUE, text(string("0x", *h)))])
            cl = k.inst("Mnemonic", "clone", "Clone", opt=True)
            if cl is not None:
                c.decide("clone" + lab, k.run(cl, [ref(m)], g=s.g, mem=s.mem),
                         [(TRUE, lambda cc, g, s2, v, ph=ph, ent=ent: b.is_mnemonic(g, s2, v, ph, ent, l, "clone"))])
    els = byte_terms(T("var", "sd"), 64)
    sd = k.seed(els)
    for nm, inst in (("as_bytes", k.inst("Seed", "as_bytes")), ("as_ref", k.inst("Seed", "as_ref", r"AsRef<\[u8\]>"))):
        c.decide(nm + " of seed", k.run(inst, [ref(sd)]), [(TRUE, ret(arr(els), "bytes"))])
    cl = k.inst("Seed", "clone", "Clone", opt=True)
    if cl is not None:
        c.decide("clone of seed", k.run(cl, [ref(sd)]),
                 [(TRUE, lambda cc, g, s2, v: same(g, k.get(k.interp(), State(g, s2.mem), v, "Seed", "as_bytes"), arr(els), "clone"))])
    for tr, up in (("LowerHex", False), ("UpperHex", True)):
        i = k.inst("Seed", "fmt", tr)
        h = hexs(els, up)
        c.decide(tr + " of seed", k.render(i, ref(sd)), [(TRUE, text(string(*h)))])
        c.decide("alternate " + tr + " of seed", k.render(i, ref(sd), alt), [(TRUE, text(string("0x", *h)))])
