"""Properties of all public operations at once (C42 panics, C44 secrecy of errors and Debug, C48 reporting of failures)."""
import re
import time

from spec import *
import kit as kitm

AI_SPECS = ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C40 C41").split()


class Watch(Kit):
    """a Kit that shows every analysed run to an observer"""

    def __init__(self, prog, see):
        super().__init__(prog)
        self.see = see
        self.part = ""

    def run(self, *a, **kw):
        r = super().run(*a, **kw)
        self.see(self.part, r)
        return r

    def render(self, *a, **kw):
        r = super().render(*a, **kw)
        self.see(self.part, r)
        return r


def sweep(c, see, only=None, skip=()):
    """run the analyses of the other properties, observing every run"""
    import props
    k = Watch(c.k.p, see)
    for pid in AI_SPECS:
        if only and pid not in only or pid in skip:
            continue
        k.part = pid
        inner = Check(pid, k)
        inner.tier, inner.config = c.tier, c.config
        try:
            props.SPECS[pid][0](inner)
        except (Missing, Unsure, Undecided) as e:
            c.unsure("runs of " + pid, str(e)[:200])
        except Exception as e:
            c.unsure("runs of " + pid, kitm.crash(e))
        c.entries += inner.entries
    c.k.functions |= k.functions
    c.k.paths += k.paths
    return k


# ------------------------------------------------------------------ arguments for any public operation
class Auto:
    """abstract arguments for a parameter type: symbolic leaves, every variant, several shapes of containers"""

    def __init__(self, k):
        from p39 import B39
        self.k, self.p, self.b = k, k.p, B39(k)
        self.memo = {}

    def prefixes(self):
        import p32
        ch = byte_terms(T("var", "px.chars"), 4)
        g = [And(*(Not(ff(bits(x, 8)[7])) for x in ch))]
        out = [(self.k.prefix(ch, tv(T("var", "px.ver", w=32))), g)]
        return out

    def values(self, ti, tag):
        """[(value, formulas)] or None when the type is not one we can make values of"""
        t = self.p.types[ti]
        kd, s = t["k"], t["str"]
        if kd == "int":
            return [(tv(T("var", tag, w=t["w"])), [])]
        if kd == "bool":
            return [(ff(bits(tv(T("var", tag, w=8)), 8)[0]), [])]
        if kd == "ref" and not t["m"]:
            u = self.p.types[t["t"]]
            if u["k"] == "str":
                return [(ref(string(x)), []) for x in (T("var", tag + ".text"),)]
            if u["k"] == "slice":
                e = self.p.types[u["t"]]
                if e["str"] == "u8":
                    return [(ref(arr(byte_terms(T("var", tag), n))), []) for n in (0, 1, 16, 31, 32, 33, 64, 65)] + [(ref(arr((T("sp", T("var", tag)),))), [])]
                es = self.values(u["t"], tag)
                return es and [(ref(arr(tuple(es[0][0] for _ in range(n)))), es[0][1]) for n in (0, 1, 3)]
            es = self.values(t["t"], tag)
            return es and [(ref(v), f) for v, f in es]
        if kd == "array":
            e = self.p.types[t["t"]]
            if e["str"] == "u8":
                return [(arr(byte_terms(T("var", tag), t["len"])), [])]
            es = self.values(t["t"], tag)
            return es and [(arr(tuple(es[0][0] for _ in range(t["len"]))), es[0][1])]
        if kd == "tuple":
            return self.product(t["ts"], tag, lambda vs: ("tup", tuple(vs)) if vs else UNIT)
        if kd == "adt":
            return self.adt(ti, t, s, tag)
        return None

    def product(self, tis, tag, mk, cap=24):
        outs = [((), [])]
        for i, x in enumerate(tis):
            vs = self.values(x, "%s.%d" % (tag, i))
            if vs is None:
                return None
            outs = [(a + (v,), f + g) for a, f in outs for v, g in vs][:cap]
        return [(mk(a), f) for a, f in outs]

    def adt(self, ti, t, s, tag):
        k, n = self.k, last(t["n"])
        own = t["krate"] == self.p.d["crate"]
        if own and n == "Prefix":
            return self.prefixes()
        if own and n == "DerivationPath":
            return [(k.path([tv(T("var", "%s.i%d" % (tag, j), w=32)) for j in range(m)]), []) for m in (0, 1, 3)]
        if own and n == "ExtendedKeyAttrs":
            return [(k.sym_attrs(tag), [])]
        if own and n == "ExtendedPrivateKey":
            return [(k.xprv(tag), [])]
        if own and n == "ExtendedPublicKey":
            return [(k.xpub(tag), [])]
        if own and n == "ExtendedKey":
            return [(k.ext(p, k.sym_attrs(tag), byte_terms(T("var", tag + ".kb"), 33)), f) for p, f in self.prefixes()]
        if own and n == "Seed":
            return [(k.seed(byte_terms(T("var", tag + ".seed"), 64)), [])]
        if own and n == "Mnemonic":
            if ti not in self.memo:
                out = []
                for ln, l in k.langs():
                    for m in (16, 32):
                        try:
                            st, v = self.b.mnemonic(byte_terms(T("var", "e"), m), l)
                        except (Unsure, Undecided, Missing):
                            continue
                        out.append((v, [], st))
                    try:
                        st, v = self.b.imported(12, l)
                        out.append((v, [], st))
                    except (Unsure, Undecided, Missing):
                        pass
                self.memo[ti] = out
            return [(v, [("state", st)]) for v, f, st in self.memo[ti]] or None
        if own and n in ("WordList", "WordMap"):
            out = []
            for ln, l in k.langs():
                r = k.run(k.inst("Language", n.lower()), [ref(l)])
                if r.outs and len(r.outs) == 1:
                    out.append((r.I.full(*r.outs[0]), [("state", r.outs[0][0])]))
            out = [(x[1] if isinstance(x, tuple) and x[0] == "&" else x, f) for x, f in out]
            return out or None
        if t["n"] == "alloc::string::String":
            return [(string(T("var", tag + ".text")), [])]
        if t["n"] == "alloc::vec::Vec" and isinstance(t["args"][0], int):
            e = self.p.types[t["args"][0]]
            if e["str"] == "u8":
                return [(arr(byte_terms(T("var", tag), m)), []) for m in (0, 16, 64)]
            if e["str"].startswith("&") and self.p.types[e["t"]]["k"] == "str":
                return None
            es = self.values(t["args"][0], tag)
            return es and [(arr(tuple(es[0][0] for _ in range(m))), es[0][1]) for m in (0, 1, 3)]
        if not own and n in ("Error", "InvalidLength", "TryFromSliceError") and not t.get("vars"):
            return [(("adt", t["n"], i, ()), []) for i in (range(3) if n == "Error" else (0,))]
        if t["n"] == "libsecp256k1::SecretKey":
            return [(k.sk(tag + ".sk"), [])]
        if t["n"] == "libsecp256k1::PublicKey":
            return [(k.pk(T("pkparse", byte_terms(T("var", tag + ".pk"), 33))), [])]
        if t["kind"] == "enum" and t.get("vars") is not None and n not in ("Result",):
            out = []
            for i, v in enumerate(t["vars"]):
                fs = self.product([f[1] for f in v["f"]], tag + "." + v["n"], lambda vs, i=i: ("adt", ti if own or t["krate"] not in ("core", "alloc", "std") else t["n"], i, tuple(vs)))
                if fs:
                    out += fs
            return out or None
        if own and t["kind"] == "struct" and t.get("vars"):
            return self.product([f[1] for f in t["vars"][0]["f"]], tag, lambda vs: ("adt", ti, 0, tuple(vs)))
        return None


def auto_runs(c, k, skip=lambda r: False):
    """(root, result) for every public operation on automatically made arguments"""
    a = Auto(k)
    for r in c.k.p.roots:
        if not (r["pub"] or r["trait"] is not None) or skip(r):
            continue
        for inst in r["insts"]:
            b = c.k.p.insts[inst]["body"]
            if not b:
                continue
            tys = b["locals"][1:1 + b["argc"]]
            fmt = len(tys) == 2 and "fmt::Formatter" in c.k.p.tstr(tys[1])
            try:
                sets = a.product([x if not (c.k.p.types[x]["k"] == "ref" and c.k.p.types[x]["m"]) else c.k.p.types[x]["t"] for x in (tys[:1] if fmt else tys)], last(r["name"]), lambda vs: vs)
            except (Missing, Unsure, Undecided) as e:
                sets = None
            if not sets:
                yield r, inst, None, None, None
                continue
            for vs, fs in sets:
                st = next((f[1] for f in fs if isinstance(f, tuple) and f[0] == "state"), None)
                g = st.g if st else Guard()
                gs = [g]
                for f in fs:
                    if not isinstance(f, tuple) or type(f) is Term:
                        gs = [h for g1 in gs for h in g1.assume(f)]
                mem = dict(st.mem) if st else {}
                for g1 in gs[:1]:
                    if fmt:
                        yield r, inst, vs, k.render(inst, vs[0], g=g1), None
                        continue
                    I = k.interp()
                    I.deadline = time.monotonic() + 20
                    s0 = State(g1, mem)
                    args, muts = [], []
                    for x, v in zip(tys, vs):
                        t = c.k.p.types[x]
                        if t["k"] == "ref" and t["m"]:
                            o = I.newtmp(s0, v)
                            muts.append((o, v))
                            args.append(("&m", o, ()))
                        else:
                            args.append(v)
                    yield r, inst, vs, k.run(inst, args, g=g1, mem=s0.mem, I=I), muts


# ------------------------------------------------------------------ every public operation, once
def everything(c, see):
    """observer see(part, root or None, result, args) over the runs of all properties and over automatically made arguments for the rest"""
    try:
        every_run(c, see)
    except kitm.OutOfTime:
        c.unsure("time", "not every run was analysed")


def every_run(c, see):
    k = sweep(c, lambda part, r: see(part, None, r, None))
    direct = {e[0] for e in c.entries}
    for r, inst, vs, res, muts in auto_runs(c, k, lambda r: all(c.k.p.insts[i]["n"] in direct for i in r["insts"])):
        if res is None:
            c.extra.setdefault("not_analysed", []).append(r["n"])
            continue
        see("", r, res, vs)
    c.k.functions |= k.functions
    c.k.paths += k.paths


DOCUMENTED = ("Prefix::from_parts_unchecked", "WordList::get_word")


def c42(c):
    seen = {}

    def see(part, root, r, vs):
        d = seen.setdefault(r.what, [0, 0, {}, {}])
        d[0] += 1
        where = part + ", " if part else "arguments %s, " % text_of(("tup", tuple(vs)), 120)
        if r.outs is None:
            d[3].setdefault(r.why, where)
        d[1] += len(r.partial or ())
        for o in r.I.panics:
            if not o.g.feasible() or r.what.endswith(DOCUMENTED):
                continue
            m = "panics: %s at %s" % (o.msg, o.where)
            (d[3] if o.g.soft() else d[2]).setdefault(m, where + "when " + clip(o.g.show(), 300))
    everything(c, see)
    for what, (n, outs, bad, uns) in sorted(seen.items()):
        for m, w in bad.items():
            c.bad(what, "%s (%s)" % (m, w))
        for m, w in uns.items():
            c.unsure(what, "%s (%s)" % (m, w))
        if not bad and not uns:
            c.ok(what, "%d analysed runs, %d outcomes, no panic" % (n, outs))


FALLIBLE = {"sk_ok": "scalar out of range", "pk_ok": "not a curve point", "pkf_ok": "not a curve point", "skadd_ok": "tweak addition failed", "pkadd_ok": "point addition failed",
            "pkmul_ok": "point multiplication failed", "pkcombine_ok": "point addition failed", "b58chars": "not Base58 text", "b58cksum": "Base58 checksum mismatch",
            "parse_ok": "not a number", "inlist": "unknown word"}
SEARCHES = ("Language::from_phrase", "Language::from_language_code")


def c48(c):
    seen = {}

    def see(part, root, r, vs):
        if r.partial is None:
            return
        d = seen.setdefault(r.what, [0, {}, {}])
        if r.what.endswith(SEARCHES):
            return
        for s, v in r.partial:
            failed = sorted({a.args[0] for a, x in s.g.lit.items() if x is False and a.op == "p" and a.args[0] in FALLIBLE})
            if not failed:
                continue
            v = r.I.full(s, v)
            if isinstance(v, tuple) and v and v[0] == "tup" and len(v[1]) == 2 and unwrap(v[1][0]):
                v = v[1][0]
            u = unwrap(v)
            d[0] += 1
            if u and u[0] in ("err", "none") or isinstance(v, bool) or is_formula(v):
                continue
            if not s.g.feasible():
                continue
            (d[2] if s.g.soft() or has_top(v) else d[1]).setdefault("returns %s although a step failed (%s)" % (text_of(v, 120), ", ".join(FALLIBLE[f] for f in failed)), clip(s.g.show(), 300))
    everything(c, see)
    n = 0
    for what, (m, bad, uns) in sorted(seen.items()):
        n += m
        for x, w in bad.items():
            c.bad(what, "%s when %s" % (x, w))
        for x, w in uns.items():
            c.unsure(what, "%s when %s" % (x, w))
        if m and not bad and not uns:
            c.ok(what, "%d outcomes with a failed step, all of them errors" % m)


# ------------------------------------------------------------------ C44
SECRET_FN = re.compile(r"Mnemonic\b|Seed\b|ExtendedPrivateKey|ExtendedKey\b|SecretKey|WordMap|MnemonicType::for_phrase|ecdsa_sign|Language::from_phrase|\bbip39::(util|crypto)")
PUBLIC_VAR = re.compile(r"(^|\.)(depth|fp|cn|ver|chars|buf|path|pk)(\.|$)|^(i|x|n|y|c|m)\d*$|^px\.|\.(i\d+)$")
ONE_WAY = {"pkof", "len", "cnt", "pkparse", "pkser"}


def leaves(v, out=None, seen=None):
    """input variables a value reveals (lengths, counts and the public key of a private key are not revealing)"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    todo = [v]
    while todo:
        x = todo.pop()
        if type(x) is Term:
            if x.id in seen or x.op in ONE_WAY:
                continue
            seen.add(x.id)
            if x.op == "var":
                out.add(x.args[0])
            todo += x.args
        elif isinstance(x, (tuple, list)):
            todo += x
    return out


def secret_leaves(what, v):
    return {x for x in leaves(v) if not PUBLIC_VAR.search(x)} if SECRET_FN.search(what) else set()


def c44(c):
    from fmtm import NOSPEC, ALT
    seen = {}

    def see(part, root, r, vs):
        if r.partial is None:
            return
        d = seen.setdefault(r.what, [0, {}, {}])
        for s, v in r.partial:
            v = r.I.full(s, v)
            u = unwrap(v)
            if not u or u[0] != "err":
                continue
            d[0] += 1
            lv = secret_leaves(r.what, u[1])
            t = has_top(u[1])
            if t:
                d[2].setdefault("error value not known: %s" % (t,), clip(s.g.show(), 200))
            if lv:
                (d[2] if s.g.soft() else d[1]).setdefault("the error %s carries secret input (%s)" % (text_of(u[1], 160), ", ".join(sorted(lv))), clip(s.g.show(), 200))
    everything(c, see)
    for what, (m, bad, uns) in sorted(seen.items()):
        for x, w in bad.items():
            c.bad("errors of " + what, "%s when %s" % (x, w))
        for x, w in uns.items():
            c.unsure("errors of " + what, "%s when %s" % (x, w))
        if m and not bad and not uns:
            c.ok("errors of " + what, "%d error outcomes, none carries secret input" % m)
    k = c.k
    alt = (NOSPEC[0] | ALT,) + tuple(NOSPEC[1:])
    for r in k.p.roots:
        if r["trait"] is None or not re.search(r"fmt::(Debug|Display|Pointer|Binary|Octal)$", r["trait"]) or not r["insts"]:
            continue
        n = last((r["self"] or "").lstrip("&"))
        dbg = r["trait"].endswith("Debug")
        if n == "ExtendedPrivateKey" or n == "ExtendedKey" and dbg:
            try:
                v = k.xprv("d") if n == "ExtendedPrivateKey" else k.ext(k.sym_prefix("px"), k.sym_attrs("d"), byte_terms(T("var", "d.kb"), 33))
            except (Undecided, Missing) as e:
                c.unsure("%s of %s" % (last(r["trait"]), n), str(e))
                continue
            for nm, spec in (("{:?}", NOSPEC), ("{:#?}", alt)):
                key = "%s %s of %s" % (nm, last(r["trait"]), n)
                res = k.render(r["insts"][0], ref(v), spec)
                if res.outs is None:
                    c.unsure(key, res.why)
                    continue
                bad = uns = None
                for s, o in res.outs:
                    text = o[1][1]
                    lv = {x for x in leaves(text) if x in ("d.sk", "d.kb")}
                    if lv:
                        bad = bad or "%s shows private key bytes: %s" % (res.what, text_of(text, 300))
                    elif has_top(text):
                        uns = uns or "text not known: %s" % (has_top(text),)
                    else:
                        lits = "".join(x for x in text[1] if isinstance(x, str)) if is_str(text) else ""
                        c.extra.setdefault("debug_texts", []).append("%s: %s" % (key, text_of(text, 200)))
                if bad:
                    c.bad(key, bad)
                elif uns:
                    c.unsure(key, uns)
                else:
                    c.ok(key, "no private key bytes in the text, whatever the key")
