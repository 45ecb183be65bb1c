"""No safe client code can hold an invalid or altered mnemonic or seed (C13)."""
from spec import *
import kit as kitm
from p39 import B39, SIZES, key_of, encode, msb, ws
from p4 import Auto

TYPES = ("Mnemonic", "Seed")


def mentions(p, ti, names, seen=None):
    """kinds of mutable access to contents a type gives: mutable references and mutable iterators"""
    seen = set() if seen is None else seen
    if ti in seen:
        return set()
    seen.add(ti)
    t = p.types[ti]
    out = set()
    if t["k"] == "ref" and t["m"]:
        u = p.types[t["t"]]
        if not (u["k"] == "adt" and u["krate"] == p.d["crate"] and last(u["n"]) in TYPES):
            out.add(t["str"])
    if t["k"] == "ptr" and t.get("m"):
        out.add(t["str"])
    if t["k"] == "adt" and re.search(r"IterMut|Drain|ChunksMut|SplitMut|Entry|Guard", last(t["n"])):
        out.add(t["str"])
    for x in ([t["t"]] if isinstance(t.get("t"), int) else []) + [x for x in (t.get("ts") or []) + (t.get("args") or []) if isinstance(x, int)]:
        out |= mentions(p, x, names, seen)
    if t["k"] == "adt" and t["krate"] == p.d["crate"]:
        for v in t.get("vars") or []:
            for f in v["f"]:
                out |= mentions(p, f[1], names, seen)
    return out


class Inputs(Auto):
    """arguments for any operation; texts also as phrases of several numbers of words"""

    def values(self, ti, tag):
        t = self.p.types[ti]
        if t["k"] == "ref" and not t["m"] and self.p.types[t["t"]]["k"] == "str":
            return [(ref(string(ws(n))), []) for n in (12, 24, 13)] + [(ref(string(T("var", tag + ".text"))), [])]
        if t["k"] == "adt" and t["n"] == "alloc::string::String":
            return [(string(ws(n)), []) for n in (12, 24, 13)] + [(string(T("var", tag + ".text")), [])]
        if t["k"] == "ref" and not t["m"] and self.p.types[t["t"]]["k"] == "slice" and self.p.tstr(self.p.types[t["t"]]["t"]) == "u8" or t["str"] == "alloc::vec::Vec<u8>":
            w = ref if t["k"] == "ref" else (lambda x: x)
            return [(w(arr(byte_terms(T("var", tag), n))), []) for n in (0, 1, 15, 16, 17, 20, 24, 28, 32, 33, 64)]
        return super().values(ti, tag)


def held(v, tis, out=None):
    """values of the given types inside a value"""
    out = [] if out is None else out
    if isinstance(v, tuple):
        if v and v[0] == "adt" and len(v) == 4 and v[1] in tis:
            out.append(v)
            return out
        for x in v:
            if isinstance(x, tuple):
                held(x, tis, out)
    return out


def valid_mnemonic(b, g, s, v):
    """raises unless the mnemonic's phrase encodes its entropy in its language"""
    k = b.k
    e = strip(b.get(g, s, v, "entropy"))
    l = strip(b.get(g, s, v, "language"))
    ph = strip(b.get(g, s, v, "phrase"))
    for x in (e, l, ph):
        if has_top(x):
            raise Unsure("content not known: %s" % (has_top(x),))
    if not is_arr(e) or any(isT(x, "sp") for x in e[1]):
        raise Unsure("entropy of unknown length")
    if len(e[1]) not in SIZES:
        raise Fail("entropy of %d bytes" % len(e[1]))
    name = next((n for n, x in k.langs() if x == l), None)
    if name is None:
        raise Unsure("language not known")
    key = key_of(name)
    try:
        same(g, ph, encode(key, e[1]), "phrase")
        return
    except (Fail, Unsure) as x:
        first = x
    parts = ph[1] if is_str(ph) else ()
    words = parts[::2]
    if any(x != " " for x in parts[1::2]) or len(words) * 4 != len(e[1]) * 3:
        raise first
    h = byte_terms(T("sha256", tuple(e[1])), 32)[0] if not all(type(x) is int for x in e[1]) else hashlib.sha256(bytes(e[1])).digest()[0]
    bs = ([x for y in e[1] for x in msb(y)] + list(msb(h)))[:11 * len(words)]
    for i, w in enumerate(words):
        if isinstance(w, str):
            if w not in TABLES[key]:
                raise Fail("the phrase has the unlisted word %s" % w)
            idx = TABLES[key].index(w)
        else:
            f, idx = in_list(key, w)
            need(g, f, "word %d of the phrase may not be listed" % (i + 1))
        for x, y in zip(tuple(bits(idx, 11))[::-1], bs[11 * i:]):
            if x is not y:
                need(g, bit_eq(x, y), "word %d of the phrase is not the one the entropy encodes" % (i + 1))


def valid_seed(k, g, s, v, old, fields):
    bs = strip(v[3][fields])
    if has_top(bs):
        raise Unsure("content not known: %s" % (has_top(bs),))
    if any(strip(o[3][fields]) == bs for o in old):
        return
    if not is_arr(bs):
        raise Unsure("bytes not known")
    if len(bs[1]) != 64:
        raise Fail("a seed of %d bytes" % len(bs[1]))
    x = bs[1][0]
    while type(x) is Term and x.op in ("bv", "b", "byte"):
        x = x.args[0]
    if type(x) is Term and x.op == "pbkdf2" and tuple(bs[1]) == tuple(byte_terms(x, 64)):
        return
    raise Fail("seed bytes that are not derived from a mnemonic and a passphrase: %s" % text_of(bs))


def c13(c):
    k, p = c.k, c.k.p
    b = B39(k)
    tis = {n: k.adt_id(n) for n in TYPES}
    # representation
    for a in p.d["adts"]:
        n = last(a["n"])
        if n not in TYPES or not a["n"].startswith(p.d["crate"]):
            continue
        pub = [f["n"] for v in a["vars"] for f in v["f"] if f["vis"] == "pub"]
        c.entries.append((a["n"], "fields of " + n, len(a["vars"][0]["f"]), 0))
        (c.bad("fields of " + n, "public field %s lets client code alter it" % ", ".join(pub)) if pub else
         c.ok("fields of " + n, "all %d fields private" % len(a["vars"][0]["f"])))
        (c.ok("interior mutability of " + n, "none") if a["freeze"] else
         c.bad("interior mutability of " + n, "contents can change behind a shared reference"))
    fields = [f[0] for f in p.types[tis["Seed"]]["vars"][0]["f"]]
    bytes_field = next((i for i, f in enumerate(p.types[tis["Seed"]]["vars"][0]["f"]) if re.search(r"u8", p.tstr(f[1]))), None)
    if bytes_field is None:
        c.unsure("Seed", "no field of bytes among %s" % ", ".join(fields))
        return
    a = Inputs(k)
    want = set(tis.values())

    def relevant(ti, seen=None):
        seen = set() if seen is None else seen
        if ti in seen:
            return False
        seen.add(ti)
        t = p.types[ti]
        if ti in want:
            return True
        subs = ([t["t"]] if isinstance(t.get("t"), int) else []) + [x for x in (t.get("ts") or []) + (t.get("args") or []) if isinstance(x, int)]
        if t["k"] == "adt" and t["krate"] == p.d["crate"]:
            subs += [f[1] for v in t.get("vars") or [] for f in v["f"]]
        return any(relevant(x, seen) for x in subs)

    n_roots = 0
    for r in p.roots:
        if not r["pub"]:
            continue
        if r["trait"] and re.search(r"ops::drop::Drop$|fmt::\w+$", r["trait"]):
            continue
        if not r["insts"]:
            sig = " ".join([str(x) for x in (r.get("in") or [])] + [str(r.get("out"))])
            if re.search(r"&(?:'\w+ )?mut [\w:]*(Mnemonic|Seed)\b", sig) or re.search(r"\b(Mnemonic|Seed)\b", str(r.get("out"))):
                c.unsure(r["n"], "a generic operation on mnemonics or seeds that is not instantiated anywhere: %s" % sig[:200])
            continue
        for inst in r["insts"]:
            info = p.insts[inst]
            if info["unsafe"] or not info["body"]:
                continue
            bd = info["body"]
            tys = bd["locals"][:1 + bd["argc"]]
            muts = [x for x in tys[1:] if p.types[x]["k"] == "ref" and p.types[x]["m"] and relevant(p.types[x]["t"])]
            outs = relevant(tys[0])
            if not muts and not outs:
                continue
            label = r["n"]
            n_roots += 1
            if muts:
                acc = mentions(p, tys[0], TYPES)
                if acc:
                    c.bad(label, "returns %s, which gives mutable access to the contents" % ", ".join(sorted(acc)))
                    continue
            judge(c, k, b, a, label, inst, tys, want, tis, bytes_field)
    c.extra["operations_that_make_or_change"] = n_roots


def judge(c, k, b, a, label, inst, tys, want, tis, bytes_field):
    p = k.p
    try:
        sets = a.product([x if not (p.types[x]["k"] == "ref" and p.types[x]["m"]) else p.types[x]["t"] for x in tys[1:]], last(label), lambda vs: vs, cap=40)
    except (Missing, Unsure, Undecided) as e:
        c.unsure(label, "no arguments: %s" % e)
        return
    if not sets:
        c.unsure(label, "no arguments can be made for its parameters")
        return
    good, uns, made = 0, [], 0
    for vs, fs in sets:
        st = next((f[1] for f in fs if isinstance(f, tuple) and f[0] == "state"), None)
        gs = [st.g if st else Guard()]
        for f in fs:
            if not (isinstance(f, tuple) and f and f[0] == "state"):
                gs = [h for g1 in gs for h in g1.assume(f)]
        for g1 in gs[:1]:
            I = k.interp()
            s0 = State(g1, dict(st.mem) if st else {})
            args, objs = [], []
            for x, v in zip(tys[1:], vs):
                t = p.types[x]
                if t["k"] == "ref" and t["m"]:
                    o = I.newtmp(s0, I.full(s0, v))
                    objs.append(o)
                    args.append(("&m", o, ()))
                else:
                    args.append(v)
            old = held(("tup", tuple(I.full(s0, v) for v in vs)), want)
            res = k.run(inst, args, g=g1, mem=s0.mem, I=I)
            c.entries.append((res.what, label, len(res.outs or ()), len(I.panics)))
            if res.outs is None:
                uns.append(res.why)
            for s, v in res.partial or ():
                v = res.I.full(s, v)
                u = unwrap(v)
                found = held(v, want)
                for o in objs:
                    found += held(I.full(s, I.read(s, o, ())), want)
                if not found and has_top(v) and not (u and u[0] in ("err", "none")):
                    uns.append("result not known: %s" % (has_top(v),))
                for m in found:
                    made += 1
                    try:
                        if m in old:
                            good += 1
                            continue
                        if m[1] == tis["Mnemonic"]:
                            valid_mnemonic(b, s.g, s, m)
                        else:
                            valid_seed(k, s.g, s, m, [o for o in old if o[1] == tis["Seed"]], bytes_field)
                        good += 1
                    except Fail as e:
                        if s.g.soft():
                            uns.append(str(e))
                            continue
                        c.bad(label, "%s of arguments %s: %s, when %s" % ("leaves or makes a value", text_of(("tup", tuple(vs)), 160), e, clip(s.g.show(), 200)))
                        return
                    except (Unsure, Undecided) as e:
                        uns.append(str(e))
    if uns and not good:
        c.unsure(label, uns[0])
        return
    if uns:
        c.extra.setdefault("not_decided", []).append("%s: %s" % (label, uns[0][:200]))
    c.ok(label, "%d values made or changed on %d sets of arguments, all consistent" % (made, len(sets)))
