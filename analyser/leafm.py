"""Abstract meaning of the cryptographic and other third-party primitives kms calls."""
import hashlib
import hmac
from core import *
from interp import *
from vals import *
from iters import last_seg, it_list

SECP_N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
SK, PK = "libsecp256k1::SecretKey", "libsecp256k1::PublicKey"
OUTLEN = {"sha512": 64, "sha256": 32, "sha384": 48, "sha224": 28, "ripemd160": 20, "ripemd128": 16, "ripemd256": 32, "ripemd320": 40,
          "sha512_256": 32, "sha512_224": 28, "sha1": 20}


class Leaf:
    # ------------------------------------------------------------------ bytes of things
    def bytes_of(self, I, st, v):
        v = I.full(st, v)
        if is_arr(v):
            if any(isinstance(e, tuple) for e in v[1]):
                t = has_top(v)
                if t:
                    raise Undecided("bytes: " + t)
            return tuple(v[1])
        if is_str(v):
            return str_bytes(v[1])
        if istop(v):
            return (T("sp", T("top", v[1])),)
        if v[0] == "adt" and v[1] == "core::option::Option":
            raise Undecided("bytes of option")
        if v[0] == "adt" and len(v[3]) >= 1:
            return self.bytes_of(I, st, v[3][0])
        raise Undecided("bytes of " + str(v[0]))

    def alg(self, s):
        """hash algorithm of a digest type string"""
        s = s.replace("sha2::core_api::", "").replace("ripemd::", "")
        if "Sha512VarCore" in s:
            # output length is a type-level number: full SHA-512 unless a truncated variant is spelled
            out = self.typenum_last(s)
            return {64: "sha512", 48: "sha384", 32: "sha512_256", 28: "sha512_224"}.get(out, "sha512?")
        if "Sha256VarCore" in s:
            out = self.typenum_last(s)
            return {32: "sha256", 28: "sha224"}.get(out, "sha256?")
        for n in ("Ripemd160", "Ripemd128", "Ripemd256", "Ripemd320"):
            if n in s:
                return n.lower()
        if "Sha1" in s:
            return "sha1"
        return "hash:" + s[:60]

    def typenum_last(self, s):
        """value of the output-size typenum in CtVariableCoreWrapper<Core, OutSize, Oid>"""
        import re
        i = s.find("VarCore,")
        if i < 0:
            return None
        x = s[i + 8:]
        # UInt<UInt<...UTerm, B1>, B0>
        d, j = 0, 0
        for j, ch in enumerate(x):
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
                if d <= 0:
                    break
        bs = re.findall(r"B([01])\b", x[:j + 1])
        if not bs:
            return None
        return int("".join(bs), 2)

    def is_mac(self, s):
        return "hmac::" in s or "Hmac" in s

    def hash_out(self, alg, els):
        if alg in ("sha256", "sha512", "sha224", "sha384") and all(type(e) is int for e in els):
            return arr(tuple(hashlib.new(alg, bytes(els)).digest()))
        return arr(byte_terms(T(alg, tuple(els)), OUTLEN.get(alg, 32)))

    def mac_out(self, alg, key, els):
        if alg in ("sha256", "sha512") and all(type(e) is int for e in tuple(key) + tuple(els)):
            return arr(tuple(hmac.new(bytes(key), bytes(els), alg).digest()))
        return arr(byte_terms(T("hmac", alg, tuple(key), tuple(els)), OUTLEN.get(alg, 64)))

    # ------------------------------------------------------------------ dispatcher
    def leaf(self, c):
        I, st, a = c.I, c.st, c.args
        seg = last_seg(c.ti or c.name)
        kr = c.krate
        f = getattr(self, "k_" + kr.replace("-", "_"), None)
        if f is None:
            return NotImplemented
        return f(c, seg)

    def type0(self, c):
        s = " ".join(c.I.p.tstr(t) for t in c.targs if isinstance(t, int)) if c.targs else ""
        return s

    # ---- digest traits (Digest, Mac, and the low-level ones)
    def k_digest(self, c, seg):
        I, st, a = c.I, c.st, c.args
        ts = self.type0(c)
        if seg == "digest":
            return self.hash_out(self.alg(ts), self.bytes_of(I, st, a[0]))
        if seg in ("new", "default") and not a:
            return ("hash", self.alg(ts), ())
        if seg == "new_with_prefix":
            return ("hash", self.alg(ts), self.bytes_of(I, st, a[0]))
        if seg in ("new_from_slice", "new"):
            k = self.bytes_of(I, st, a[0])
            v = ("mac", self.alg(ts), k, ())
            return ok(v) if seg == "new_from_slice" else v
        if seg in ("update", "chain_update", "chain"):
            h = I.full(st, a[0])
            if istop(h):
                return UNIT if seg == "update" else h
            n = h[:-1] + (h[-1] + self.bytes_of(I, st, a[1]),)
            if seg == "update":
                I.write(st, a[0], n)
                return UNIT
            return n
        if seg in ("finalize", "finalize_fixed", "finalize_boxed", "finalize_reset", "result"):
            h = I.full(st, a[0])
            if istop(h):
                return h
            if seg == "finalize_reset":
                I.write(st, a[0], h[:-1] + ((),))
            return self.hash_out(h[1], h[2]) if h[0] == "hash" else self.mac_out(h[1], h[2], h[3])
        if seg == "finalize_into":
            h = I.full(st, a[0])
            I.write(st, a[1], self.hash_out(h[1], h[2]) if h[0] == "hash" else self.mac_out(h[1], h[2], h[3]))
            return UNIT
        if seg in ("into_bytes", "as_bytes"):
            return a[0]
        if seg == "reset":
            h = I.full(st, a[0])
            I.write(st, a[0], h[:-1] + ((),))
            return UNIT
        if seg == "output_size":
            return OUTLEN.get(self.alg(ts), 0)
        if seg in ("verify_slice", "verify", "verify_truncated_left"):
            h = I.full(st, a[0])
            out = self.mac_out(h[1], h[2], h[3])[1]
            return I.eqsplit(st, out, self.bytes_of(I, st, a[1])) if hasattr(I, "eqsplit") else NotImplemented
        return NotImplemented

    k_hmac = k_crypto_common = k_block_buffer = k_sha2 = k_ripemd = k_crypto_mac = k_digest

    def k_generic_array(self, c, seg):
        if seg in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "into", "from", "clone", "borrow", "from_slice"):
            if seg in ("clone",):
                return c.I.full(c.st, c.args[0])
            return c.args[0]
        return self.std(c, seg)

    # ---- pbkdf2
    def k_pbkdf2(self, c, seg):
        I, st, a = c.I, c.st, c.args
        ts = self.type0(c)
        if seg in ("pbkdf2", "pbkdf2_hmac"):
            out = I.full(st, a[3])
            n = length(out)
            n = st.g.const(n) if not istop(n) else None
            if n is None:
                raise Undecided("pbkdf2 output of unknown length")
            prf = ("hmac-" if self.is_mac(ts) or seg == "pbkdf2_hmac" else "?") + self.alg(ts)
            x = T("pbkdf2", prf, self.bytes_of(I, st, a[0]), self.bytes_of(I, st, a[1]), a[2])
            I.write(st, a[3], arr(byte_terms(x, n)))
            return UNIT
        if seg in ("pbkdf2_array", "pbkdf2_hmac_array"):
            n = self.array_len(c, c.destty)
            if n is None:
                return NotImplemented
            prf = "hmac-" + self.alg(ts)
            return arr(byte_terms(T("pbkdf2", prf, self.bytes_of(I, st, a[0]), self.bytes_of(I, st, a[1]), a[2]), n))
        return NotImplemented

    def array_len(self, c, ty):
        if ty is None:
            return None
        t = c.I.p.types[ty]
        return t.get("len") if t["k"] == "array" and isinstance(t.get("len"), int) else None

    # ---- random numbers
    def draw(self, I, src, n):
        I.tmp += 1
        return [tv(T("rand", src, I.tmp, i, w=8)) for i in range(n)]

    def rng_src(self, I, st, r):
        v = I.full(st, r)
        if isinstance(v, tuple) and v[0] == "rng":
            return v[1]
        if istop(v):
            return "?"
        if isinstance(v, tuple) and v[0] == "adt" and isinstance(v[1], str):
            return last_seg(v[1])
        return "?"

    def k_rand(self, c, seg):
        I, st, a = c.I, c.st, c.args
        if seg in ("thread_rng", "rng"):
            return ("rng", "thread_rng")
        if seg == "default" and "ThreadRng" in c.name:
            return ("rng", "thread_rng")
        if seg in ("fill_bytes", "try_fill_bytes", "fill", "try_fill"):
            src = self.rng_src(I, st, a[0])
            buf = I.full(st, a[1])
            if is_arr(buf) and sized(buf[1]):
                I.write(st, a[1], arr(self.draw(I, src, len(buf[1]))))
            else:
                I.write(st, a[1], top("random fill of unknown length"))
            return ok(UNIT) if seg.startswith("try") else UNIT
        if seg in ("next_u32", "next_u64"):
            n = 4 if seg == "next_u32" else 8
            return mkbv(tuple(b for x in self.draw(I, self.rng_src(I, st, a[0]), n) for b in bits(x, 8)))
        if seg in ("gen", "random", "sample"):
            src = self.rng_src(I, st, a[0]) if a else "thread_rng"
            return self.rand_of(I, c.destty, src)
        if seg in ("gen_range", "random_range"):
            I.tmp += 1
            w = I.width(c.destty)[0] if c.destty is not None else 8
            return tv(T("randrange", self.rng_src(I, st, a[0]), I.tmp, w=w))
        if seg in ("from_entropy", "from_os_rng"):
            return ("rng", "entropy:" + self.tyname(c))
        if seg in ("seed_from_u64", "from_seed", "from_rng"):
            return ("rng", "seeded:" + self.tyname(c))
        if seg == "clone":
            return I.full(st, a[0])
        return NotImplemented

    k_rand_core = k_rand_chacha = k_getrandom = k_rand

    def tyname(self, c):
        return c.I.p.tstr(c.destty) if c.destty is not None else c.name

    def rand_of(self, I, ty, src):
        if ty is None:
            return top("random value")
        t = I.p.types[ty]
        if t["k"] == "int":
            n = t["w"] // 8
            return mkbv(tuple(b for x in self.draw(I, src, n) for b in bits(x, 8)))
        if t["k"] == "array" and isinstance(t.get("len"), int):
            return arr([self.rand_of(I, t["t"], src) for _ in range(t["len"])])
        if t["k"] == "tuple" and t.get("ts"):
            return ("tup", tuple(self.rand_of(I, x, src) for x in t["ts"]))
        return top("random value")

    # ---- secp256k1
    def sk_ok(self, els):
        if len(els) == 32 and all(isT(e) for e in els):
            x = self.whole(els, 32)
            if x is not None and x.op in ("skadd", "skrand"):
                return TRUE
        if all(type(e) is int for e in els):
            return TRUE if 0 < int.from_bytes(bytes(els), "big") < SECP_N else FALSE
        return P("sk_ok", tuple(els))

    def whole(self, els, n):
        """X when els are exactly bytes 0..n of X"""
        if len(els) != n:
            return None
        x = None
        for i, e in enumerate(els):
            if not isT(e, "bv"):
                return None
            r = recover(e)
            if not r or r[0] != "z" or r[2] or r[1].op != "byte" or r[1].args[1] != i:
                return None
            if x is None:
                x = r[1].args[0]
            elif r[1].args[0] is not x:
                return None
        return x

    def sk(self, els):
        return ("adt", SK, 0, (arr(els),))

    def pk(self, x):
        return ("adt", PK, 0, (x,))

    def sk_bytes(self, I, st, v):
        v = I.full(st, v)
        if isinstance(v, tuple) and v[0] == "adt" and v[1] == SK:
            return v[3][0][1]
        raise Undecided("secret key: " + (str(v[1]) if istop(v) else str(v[0])))

    def pk_x(self, I, st, v):
        v = I.full(st, v)
        if isinstance(v, tuple) and v[0] == "adt" and v[1] == PK:
            return v[3][0]
        raise Undecided("public key: " + (str(v[1]) if istop(v) else str(v[0])))

    def pkof(self, els):
        x = self.whole(els, 32)
        if x is not None and x.op == "skadd":
            return T("pkadd", self.pkof(x.args[0]), x.args[1])
        return T("pkof", tuple(els))

    def pkadd_ok(self, x, t):
        if x.op == "pkof":
            return P("skadd_ok", x.args[0], t)
        if x.op == "pkadd":
            y = self.unpk(x)
            if y is not None:
                return P("skadd_ok", y, t)
        return P("pkadd_ok", x, t)

    def unpk(self, x):
        """secret key bytes whose public key x is, if it is one"""
        if x.op == "pkof":
            return x.args[0]
        if x.op == "pkadd":
            y = self.unpk(x.args[0])
            if y is not None:
                return byte_terms(T("skadd", y, x.args[1]), 32)
        return None

    def pk_ser(self, x):
        if x.op == "pkparse":
            return x.args[0]
        return byte_terms(T("pkser", x), 33)

    def fallible(self, I, st, f, good, e):
        a, b = I.split(st, f)
        return [(s, ok(good)) for s in a] + [(s, err(e)) for s in b]

    def secperr(self, n):
        return ("adt", "libsecp256k1::Error", n, ())

    def k_libsecp256k1(self, c, seg):
        I, st, a = c.I, c.st, c.args
        n = c.name
        if seg == "clone":
            return I.full(st, a[0])
        if "SecretKey" in n and "PublicKey::" not in n:
            if seg in ("parse", "parse_slice", "try_from"):
                els = expand(st.g, self.bytes_of(I, st, a[0]))
                if sized(els):
                    if len(els) != 32:
                        return err(self.secperr(2))
                    return self.fallible(I, st, self.sk_ok(els), self.sk(els), self.secperr(1))
                out = []
                yes, no = I.split(st, eq(len_els(els), 32, 64))
                for s in yes:
                    e2 = expand(s.g, els)
                    if not sized(e2):
                        raise Undecided("secret key bytes")
                    out += self.fallible(I, s, self.sk_ok(e2), self.sk(e2), self.secperr(1))
                return out + [(s, err(self.secperr(2))) for s in no]
            if seg == "serialize":
                return arr(self.sk_bytes(I, st, a[0]))
            if seg in ("tweak_add_assign", "tweak_mul_assign"):
                k, t = self.sk_bytes(I, st, a[0]), self.sk_bytes(I, st, a[1])
                op = "skadd" if "add" in seg else "skmul"
                y, no = I.split(st, P(op + "_ok", k, t))
                out = []
                for s in y:
                    I.write(s, a[0], self.sk(byte_terms(T(op, k, t), 32)))
                    out.append((s, ok(UNIT)))
                # the operand is left unchanged on failure
                return out + [(s, err(self.secperr(6))) for s in no]
            if seg == "inv":
                return self.sk(byte_terms(T("skinv", self.sk_bytes(I, st, a[0])), 32))
            if seg == "random":
                x = T("skrand", I.tmp)
                I.tmp += 1
                return self.sk(byte_terms(x, 32))
            if seg == "clear":
                I.write(st, a[0], self.sk((0,) * 32))
                return UNIT
            if seg in ("eq", "ne"):
                f = els_eq(self.sk_bytes(I, st, a[0]), self.sk_bytes(I, st, a[1]))
                return f if seg == "eq" else Not(f)
            if seg == "default":
                return self.sk((0,) * 31 + (1,))
        if "PublicKey" in n:
            if seg == "from_secret_key":
                return self.pk(self.pkof(self.sk_bytes(I, st, a[0])))
            if seg in ("parse_compressed", "parse", "parse_slice"):
                els = expand(st.g, self.bytes_of(I, st, a[0]))
                if not sized(els):
                    raise Undecided("public key bytes of unknown length")
                w = self.whole(els, 33)
                if len(els) == 33 and w is not None and w.op == "pkser" and seg != "parse":
                    return ok(self.pk(w.args[0]))
                if len(els) == 33 and seg != "parse":
                    return self.fallible(I, st, P("pk_ok", els), self.pk(T("pkparse", els)), self.secperr(1))
                return self.fallible(I, st, P("pkf_ok", els), self.pk(T("pkparsefull", els)), self.secperr(1))
            if seg == "serialize_compressed":
                return arr(self.pk_ser(self.pk_x(I, st, a[0])))
            if seg == "serialize":
                return arr(byte_terms(T("pkserfull", self.pk_x(I, st, a[0])), 65))
            if seg in ("tweak_add_assign", "tweak_mul_assign"):
                x, t = self.pk_x(I, st, a[0]), self.sk_bytes(I, st, a[1])
                if "mul" in seg:
                    f, r = P("pkmul_ok", x, t), T("pkmul", x, t)
                else:
                    f, r = self.pkadd_ok(x, t), T("pkadd", x, t)
                y, no = I.split(st, f)
                out = []
                for s in y:
                    I.write(s, a[0], self.pk(r))
                    out.append((s, ok(UNIT)))
                return out + [(s, err(self.secperr(6))) for s in no]
            if seg == "combine":
                v = I.full(st, a[0])
                xs = tuple(self.pk_x(I, st, e) for e in v[1])
                x = T("pkcombine", xs)
                return self.fallible(I, st, P("pkcombine_ok", x), self.pk(x), self.secperr(1))
            if seg in ("eq", "ne"):
                f = els_eq(self.pk_ser(self.pk_x(I, st, a[0])), self.pk_ser(self.pk_x(I, st, a[1])))
                return f if seg == "eq" else Not(f)
        if "Message" in n:
            if seg in ("parse_slice", "parse"):
                els = self.bytes_of(I, st, a[0])
                y, no = I.split(st, eq(len_els(els), 32, 64))
                out = []
                for s in y:
                    e2 = expand(s.g, els)
                    if not sized(e2):
                        raise Undecided("message bytes")
                    v = ("adt", "libsecp256k1::Message", 0, (arr(e2),))
                    out.append((s, v if seg == "parse" else ok(v)))
                return out + [(s, err(self.secperr(2))) for s in no]
            if seg == "serialize":
                return I.full(st, a[0])[3][0]
        if seg == "is_zero" and "Scalar" in n:
            v = I.full(st, a[0])
            if is_arr(v) and sized(v[1]) and len(v[1]) == 32:
                order = SECP_N.to_bytes(32, "big")
                return Or(els_eq(v[1], (0,) * 32), els_eq(v[1], tuple(order)))
        if seg == "neg" and "Scalar" in n:
            v = I.full(st, a[0])
            if isT(v):
                return v.args[0] if v.op == "scneg" else T("scneg", v)
        if seg == "is_high" and "Scalar" in n:
            v = I.full(st, a[0])
            if isT(v, "sigs"):
                return FALSE
            if isT(v):
                return P("high", v)
            if is_arr(v) and sized(v[1]) and len(v[1]) == 32:
                if all(type(e) is int for e in v[1]):
                    return TRUE if int.from_bytes(bytes(v[1]), "big") > SECP_N // 2 else FALSE
                return P("high", tuple(v[1]))
        if seg == "sign":
            m = I.full(st, a[0])
            if istop(m):
                return m
            k = self.sk_bytes(I, st, a[1])
            me = m[3][0][1]
            return ("tup", (("adt", "libsecp256k1::Signature", 0, (T("sigr", T("sig", me, k)), T("sigs", T("sig", me, k)))),
                            ("adt", "libsecp256k1::RecoveryId", 0, (tv(T("recid", me, k, w=8)),))))
        if "Signature" in n:
            if seg == "serialize":
                s = I.full(st, a[0])
                if istop(s):
                    return s
                x, y = s[3]
                if isT(x, "sigr") and isT(y, "sigs") and x.args[0] is y.args[0]:
                    return arr(byte_terms(T("sigser", x.args[0]), 64))
                if not isT(x) or not isT(y):
                    raise Undecided("signature of unknown parts")
                return arr(byte_terms(T("scalar", x), 32) + byte_terms(T("scalar", y), 32))
            if seg == "normalize_s":
                s = I.full(st, a[0])
                if not isT(s[3][1], "sigs"):
                    # (the signatures it makes are normal already)
                    I.write(st, a[0], ("adt", s[1], 0, (s[3][0], T("lowS", s[3][1]) if isT(s[3][1]) else top("scalar"))))
                return UNIT
        if "RecoveryId" in n:
            if seg in ("into", "serialize", "from"):
                r = I.full(st, a[0])
                return r[3][0] if isinstance(r, tuple) and r[0] == "adt" else NotImplemented
        if seg in ("verify",):
            return P("verify", has_top(tuple(I.full(st, x) for x in a)) or T("v", tuple(I.full(st, x) for x in a)))
        return NotImplemented

    k_libsecp256k1_core = k_libsecp256k1

    # ---- base58
    def k_bs58(self, c, seg):
        I, st, a = c.I, c.st, c.args
        n = c.name
        if n == "bs58::encode":
            return ("b58e", self.bytes_of(I, st, a[0]), False)
        if n == "bs58::decode":
            v = I.full(st, a[0])
            return ("b58d", bytes_str(self.bytes_of(I, st, a[0]))[1], False)
        if istop(a[0]):
            return NotImplemented
        b = I.full(st, a[0])
        if istop(b):
            return NotImplemented
        if seg == "with_check":
            return (b[0], b[1], True)
        if seg in ("with_alphabet", "with_prepared_alphabet", "with_check_version", "as_cb58"):
            return top("base58 option " + seg)
        if b[0] == "b58e":
            parts = b58_check(b[1]) if b[2] else b58_plain(b[1])
            if seg == "into_string":
                return string(*parts)
            if seg == "into_vec":
                return arr(str_bytes(parts))
            if seg == "into":
                tgt = I.full(st, a[1])
                if is_str(tgt):
                    I.write(st, a[1], string(*tgt[1], *parts))
                    return ok(length(string(*parts)))
                els = str_bytes(parts)
                if self.is_vec_target(c):
                    I.write(st, a[1], arr(tgt[1] + els))
                    return ok(len_els(els))
                if not is_arr(tgt) or not sized(tgt[1]):
                    return NotImplemented
                cap = len(tgt[1])
                L = len_els(els)
                yes, no = I.split(st, Not(ult(cap, L, 64, st.g)))
                out = []
                for s in yes:
                    k = s.g.const(L)
                    if sized(els):
                        new = els + tgt[1][len(els):]
                    elif k is not None:
                        new = expand(s.g, els) + tgt[1][k:]
                    else:
                        lo = s.g.range(L)[0]
                        new = tuple(tv(T("byte", parts[0], i, w=8) if i < lo else T("encbyte", parts[0], i, tgt[1][i], w=8)) for i in range(cap))
                    I.write(s, a[1], arr(new))
                    out.append((s, ok(L)))
                e = ("adt", "bs58::encode::Error", 0, ())
                return out + [(s, err(e)) for s in no]
        if b[0] == "b58d":
            x = skey(b[1])
            e = lambda k: ("adt", "bs58::decode::Error", k, ())
            if isinstance(x, str):
                return self.b58_dec_const(c, seg, x, b[2])
            if x.op == "cat":
                x = T("bs", str_bytes(b[1]))
            if x.op == "b58c" and b[2]:
                return self.b58_dec_known(c, seg, x)
            tot = tv(T("b58tot", x, w=64))
            out = []
            good, bad = I.split(st, P("b58chars", x))
            out += [(s, err(e(1))) for s in bad]
            if seg == "into" and not self.is_vec_target(c):
                tgt = I.full(st, a[1])
                if not is_arr(tgt) or not sized(tgt[1]):
                    return NotImplemented
                nxt = []
                for s in good:
                    fit, over = I.split(s, Not(ult(len(tgt[1]), tot, 64, s.g)))
                    out += [(q, err(e(0))) for q in over]
                    nxt += fit
                good = nxt
            if b[2]:
                nxt = []
                for s in good:
                    y, no = I.split(s, And(Not(ult(tot, 4, 64, s.g)), P("b58cksum", x)))
                    out += [(q, err(e(3))) for q in no]
                    nxt += y
                good = nxt
            for s in good:
                L = sub(tot, 4, 64) if b[2] else tot
                if seg == "into" and not self.is_vec_target(c):
                    cap = len(tgt[1])
                    k = s.g.const(tot)
                    m = cap if k is None else k
                    new = byte_terms(T("b58dec", x), m) + tgt[1][m:]
                    I.write(s, a[1], arr(new))
                    out.append((s, ok(L)))
                elif seg in ("into_vec", "into"):
                    k = s.g.const(L)
                    els = byte_terms(T("b58dec", x), k) if k is not None else (T("sp", T("b58pay", x, 4 if b[2] else 0)),)
                    if seg == "into":
                        I.write(s, a[1], arr(els))
                        out.append((s, ok(L)))
                    else:
                        out.append((s, ok(arr(els))))
                else:
                    return NotImplemented
            return out
        return NotImplemented

    def is_vec_target(self, c):
        if c.argtys and len(c.argtys) > 1:
            s = c.I.p.tstr(c.argtys[1])
            return "Vec<" in s or "String" in s
        return False

    def b58_dec_const(self, c, seg, x, check):
        I, st, a = c.I, c.st, c.args
        e = lambda k: err(("adt", "bs58::decode::Error", k, ()))
        if any(ch not in B58 for ch in x):
            return e(1)
        n = 0
        for ch in x:
            n = n * 58 + B58.index(ch)
        z = len(x) - len(x.lstrip("1"))
        b = b"\0" * z + n.to_bytes((n.bit_length() + 7) // 8, "big")
        return self.b58_put(c, seg, b, check, e)

    def b58_put(self, c, seg, b, check, e):
        I, st, a = c.I, c.st, c.args
        vec = seg == "into_vec" or self.is_vec_target(c)
        if not vec:
            tgt = I.full(st, a[1])
            if not is_arr(tgt) or not sized(tgt[1]):
                return NotImplemented
            if len(b) > len(tgt[1]):
                return e(0)
        n = len(b)
        if check:
            if n < 4 or hashlib.sha256(hashlib.sha256(b[:-4]).digest()).digest()[:4] != b[-4:]:
                return e(3)
            n -= 4
        if seg == "into_vec":
            return ok(arr(b[:n]))
        if vec:
            I.write(st, a[1], arr(b[:n]))
            return ok(n)
        I.write(st, a[1], arr(tuple(b) + tgt[1][len(b):]))
        return ok(n)

    def b58_dec_known(self, c, seg, x):
        """decoding text that was produced by the encoder"""
        I, st, a = c.I, c.st, c.args
        pay = x.args[0]
        if not sized(pay):
            return NotImplemented
        ck = byte_terms(T("b58ck", pay), 4)
        n = len(pay)
        if seg == "into_vec":
            return ok(arr(pay))
        if self.is_vec_target(c):
            I.write(st, a[1], arr(pay))
            return ok(n)
        tgt = I.full(st, a[1])
        if not is_arr(tgt) or not sized(tgt[1]):
            return NotImplemented
        if n + 4 > len(tgt[1]):
            return err(("adt", "bs58::decode::Error", 0, ()))
        I.write(st, a[1], arr(pay + ck + tgt[1][n + 4:]))
        return ok(n)

    # ---- hex
    def k_hex(self, c, seg):
        I, st, a = c.I, c.st, c.args
        if seg in ("encode", "encode_upper"):
            els = self.bytes_of(I, st, a[0])
            up = seg == "encode_upper"
            if not sized(els):
                return string(T("hexsp", els, up))
            out = []
            for e in els:
                b = bits(e, 8)
                out.append(self.nibpart(mkbv(b[4:]), up))
                out.append(self.nibpart(mkbv(b[:4]), up))
            return string(*out)
        return NotImplemented

    # ---- encoding
    def k_encoding(self, c, seg):
        I, st, a = c.I, c.st, c.args
        if seg in ("raw_encoder", "encode", "encode_to", "raw_feed", "raw_finish"):
            if seg == "raw_encoder":
                s = c.name + " " + self.type0(c) + (" " + I.p.tstr(c.argtys[0]) if c.argtys else "")
                return ("box", ("enc", self.enc_name(s)))
            if seg == "raw_feed":
                e = I.full(st, a[0])
                if not (isinstance(e, tuple) and e[0] == "enc"):
                    if isinstance(e, tuple) and e[0] == "dyn":
                        e = e[2]
                    else:
                        return NotImplemented
                s = I.full(st, a[1])
                self.append_bytes(I, st, a[2], (T("sp", T(e[1], str_bytes(s[1]))),))
                return ("tup", (length(s), NONE))
            if seg == "raw_finish":
                return NONE
            if seg == "encode":
                s = I.full(st, a[1])
                name = self.enc_name(c.name + " " + self.type0(c) + (" " + I.p.tstr(c.argtys[0]) if c.argtys else ""))
                x = T(name, str_bytes(s[1]))
                trap = I.full(st, a[2])
                good, bad = I.split(st, P("encodable", name, skey(s[1])))
                return [(q, ok(arr((T("sp", x),)))) for q in good] + [(q, ok(arr((T("sp", T("trap", x)),)))) for q in bad]
        return NotImplemented

    k_encoding_types = k_encoding

    def enc_name(self, s):
        if "GB18030" in s:
            return "gb18030"
        if "GBK" in s:
            return "gbk"
        if "UTF" in s.upper():
            return "utf"
        return "enc:" + s[:40]

    def append_bytes(self, I, st, r, els):
        v = I.read(st, r[1], r[2]) if r[0] == "&m" else I.full(st, r)
        while v[0] == "&m":
            r = v
            v = I.read(st, r[1], r[2])
        if isinstance(v, tuple) and v[0] == "dyn":
            raise Undecided("append to dyn")
        if is_arr(v):
            I.write(st, r, arr(v[1] + tuple(els)))
        elif is_str(v):
            I.write(st, r, string(*v[1], *bytes_str(els)[1]))
        else:
            raise Undecided("append to " + v[0])

    # ---- unicode normalisation
    def k_unicode_normalization(self, c, seg):
        I, st, a = c.I, c.st, c.args
        if seg in ("nfkd", "nfkc", "nfd", "nfc"):
            v = a[0]
            while isinstance(v, tuple) and v[0] in ("&", "&m"):
                v = I.deref(st, v)
            if is_str(v):
                return ("it", "chars", self.normal(seg, v[1]))
            if isinstance(v, tuple) and v[0] == "it" and v[1] == "chars":
                return ("it", "chars", self.normal(seg, v[2]))
            return NotImplemented
        if seg.startswith("is_nf"):
            v = I.full(st, a[0])
            if is_str(v):
                k = skey(v[1])
                if isinstance(k, str):
                    import unicodedata
                    n = seg[3:].replace("_quick", "").upper()
                    return TRUE if unicodedata.normalize(n, k) == k else FALSE
                return P(seg, k)
        return NotImplemented

    def normal(self, form, parts):
        """normalisation distributes over ASCII constants followed by anything that cannot compose backwards"""
        import unicodedata
        k = skey(parts)
        if isinstance(k, str):
            return (unicodedata.normalize(form.upper(), k),) if k else ()
        if form in ("nfkd", "nfd"):
            out = []
            for p in (k.args if k.op == "cat" else (k,)):
                if isinstance(p, str):
                    out.append(unicodedata.normalize(form.upper(), p))
                else:
                    out.append(self.norm1(form, p))
            # decompositions only reorder combining marks across the boundary of two pieces when a
            # piece begins with a mark; keep the whole as one term unless the constants are ASCII
            if k.op == "cat":
                ks = k.args
                for i, p in enumerate(ks):
                    if isinstance(p, str) and (not p.isascii()):
                        return (T(form, k),)
                    if i and isT(p) and isT(ks[i - 1]):
                        return (T(form, k),)
            return tuple(out)
        return (self.norm1(form, k),)

    def norm1(self, form, p):
        if p.op in ("nib", "dec", "b58c", "b58p"):
            return p
        if p.op == "word" and form in ("nfkd",):
            return p
        if p.op == "nfkd" and form in ("nfkd", "nfd"):
            return p
        if p.op == "bs" and p.w is None and sized(p.args[0]) and all(natural_hi(e) < 128 for e in p.args[0]):
            return p
        if p.op == "ws":
            return T("ws", tuple(self.norm1(form, x) for x in p.args[0]), *p.args[1:])
        if form == "nfkd" and p.op in ("nfc", "nfd", "nfkc"):
            return T("nfkd", p.args[0])
        return T(form, p)

    # ---- zeroize, subtle, once_cell, anyhow, thiserror
    def k_zeroize(self, c, seg):
        I, st, a = c.I, c.st, c.args
        if seg == "zeroize":
            r = a[0]
            v = I.full(st, r)
            I.wipes = getattr(I, "wipes", 0) + 1
            I.write(st, self.innermost(I, st, r), self.zero(v, self.is_vec(c)))
            return UNIT
        if seg in ("new", "from", "default"):
            return a[0] if a else NotImplemented
        if seg in ("deref", "deref_mut", "as_ref", "as_mut"):
            return a[0]
        if seg == "clone":
            return I.full(st, a[0])
        if seg in ("eq", "ne", "cmp", "fmt"):
            return self.std(c, seg)
        return NotImplemented

    def innermost(self, I, st, r):
        n = 0
        while r[0] == "&m" and n < 6:
            v = I.read(st, r[1], r[2])
            if isinstance(v, tuple) and v and v[0] == "&m":
                r = v
                n += 1
                continue
            break
        return r

    def is_vec(self, c):
        return "Vec" in c.name or "String" in c.name or (c.argtys and ("Vec<" in c.I.p.tstr(c.argtys[0]) or "String" in c.I.p.tstr(c.argtys[0])))

    def zero(self, v, vec=False):
        if is_arr(v):
            return ("arr", ()) if vec else ("arr", tuple(self.zero(x) for x in v[1]))
        if is_str(v):
            return ("str", ())
        if type(v) is int or isT(v, "bv"):
            return 0
        if type(v) is Term:
            return FALSE
        if isinstance(v, tuple) and v and v[0] == "adt" and v[1] == OPT:
            return NONE
        if isinstance(v, tuple) and v and v[0] in ("tup",):
            return ("tup", tuple(self.zero(x) for x in v[1]))
        if isinstance(v, tuple) and v and v[0] == "adt":
            return ("adt", v[1], v[2], tuple(self.zero(x) for x in v[3]))
        return top("zeroized")

    def k_subtle(self, c, seg):
        I, st, a = c.I, c.st, c.args
        if seg in ("ct_eq", "ct_ne"):
            out = []
            log, I.branch_log = I.branch_log, None
            for s, f in self.eqv(I, st, a[0], a[1]):
                out.append((s, f if seg == "ct_eq" else Not(f)))
            I.branch_log = log
            return out
        if seg in ("bitand", "bitor", "bitxor"):
            x, y = I.full(st, a[0]), I.full(st, a[1])
            if istop(x) or istop(y):
                return x if istop(x) else y
            return And(x, y) if seg == "bitand" else Or(x, y) if seg == "bitor" else ff(b_xor(fb(x), fb(y)))
        if seg in ("bitand_assign", "bitor_assign"):
            x, y = I.full(st, a[0]), I.full(st, a[1])
            if istop(x) or istop(y):
                I.write(st, a[0], x if istop(x) else y)
            else:
                I.write(st, a[0], And(x, y) if seg == "bitand_assign" else Or(x, y))
            return UNIT
        if seg == "not":
            x = I.full(st, a[0])
            return x if istop(x) else Not(x)
        if seg == "unwrap_u8":
            x = I.full(st, a[0])
            return x if istop(x) else mkbv((fb(x),) + (0,) * 7)
        if seg in ("from", "into"):
            x = I.full(st, a[0])
            if istop(x):
                return x
            if c.destty is not None and "Choice" in I.p.tstr(c.destty) and (type(x) is int or isT(x, "bv")):
                return Not(eq(x, 0, 8))
            return x
        if seg == "conditional_select":
            log, I.branch_log = I.branch_log, None
            x, y, f = I.full(st, a[0]), I.full(st, a[1]), I.full(st, a[2])
            y1, n1 = I.split(st, f)
            I.branch_log = log
            return [(s, y) for s in y1] + [(s, x) for s in n1]
        if seg == "clone":
            return I.full(st, a[0])
        return NotImplemented

    def k_once_cell(self, c, seg):
        I, st, a = c.I, c.st, c.args
        if seg in ("deref", "force", "get"):
            v = a[0]
            n = 0
            while isinstance(v, tuple) and v[0] in ("&", "&m") and n < 5:
                v = I.deref(st, v)
                n += 1
            if isinstance(v, tuple) and v[0] == "lazy":
                r = ref(I.force(v[1]))
                return r if seg != "get" else some(r)
            if istop(v):
                return v
        return NotImplemented

    k_lazy_static = k_once_cell

    def k_anyhow(self, c, seg):
        I, st, a = c.I, c.st, c.args
        if seg in ("from", "new", "into"):
            return ("adt", "anyhow::Error", 0, (a[0], c.argtys[0] if c.argtys else (c.targs[-1] if c.targs else None)))
        if seg in ("msg", "format_err"):
            return ("adt", "anyhow::Error", 0, (a[0], c.argtys[0] if c.argtys else None))
        if seg in ("context", "with_context"):
            r = I.full(st, a[0])
            if istop(r):
                return NotImplemented
            isok = (r[1] == RES and r[2] == 0) or (r[1] == OPT and r[2] == 1)
            if isok:
                return ok(r[3][0])
            if seg == "with_context":
                return [(s, err(("adt", "anyhow::Error", 0, (v, None)))) for s, v, f in I.call_fn(st, a[1], [])]
            return err(("adt", "anyhow::Error", 0, (a[1], None)))
        return NotImplemented

    def k_thiserror(self, c, seg):
        if seg in ("as_display", "as_dyn_error"):
            return c.args[0]
        return NotImplemented

    k_thiserror_core = k_thiserror

    def k_bytemuck(self, c, seg):
        return NotImplemented


def natural_hi(e):
    return e if type(e) is int else natural(e)[1]
