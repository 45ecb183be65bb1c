"""Whole-program properties: API surface, effects, thread safety (C13, C45, C46, C47)."""
import collections
import re

from spec import *
from p39 import B39, encode, key_of, langs, ws, SIZES, LANGS
import p39


# ------------------------------------------------------------------ call graph
class Graph:
    """everything a function may run: callees, closures and function items it mentions, drop glue, trait implementations of the types it hands
    to code without a body here, initialisers of the statics it names"""

    def __init__(self, p):
        self.p = p
        self.succ = {}
        self.tcache = {}
        self.scache = {}

    def type_insts(self, ti):
        if ti in self.tcache:
            return self.tcache[ti]
        self.tcache[ti] = frozenset()
        seen, todo, out = set(), [ti], set()
        while todo:
            i = todo.pop()
            if not isinstance(i, int) or isinstance(i, bool) or i in seen:
                continue
            seen.add(i)
            t = self.p.types[i]
            if isinstance(t.get("inst"), int):
                out.add(t["inst"])
            for v in (t.get("impls") or {}).values():
                if isinstance(v, int) and not isinstance(v, bool):
                    out.add(v)
            if isinstance(t.get("drop"), int) and not isinstance(t.get("drop"), bool):
                out.add(t["drop"])
            todo += [t.get("t")] + list(t.get("ts") or ()) + list(t.get("args") or ()) + list(t.get("up") or ())
            for v in t.get("vars") or ():
                todo += [f[1] for f in v["f"]]
        self.tcache[ti] = frozenset(out)
        return self.tcache[ti]

    def succs(self, i):
        if i in self.succ:
            return self.succ[i]
        out = set()
        x = self.p.insts[i]
        b = x["body"]
        if b:
            for t in b["locals"]:
                out |= self.type_insts(t)
            self.walk(b["blocks"], out)
            for a in x.get("args") or ():
                if isinstance(a, int):
                    out |= self.type_insts(a)
        out.discard(i)
        self.succ[i] = out
        return out

    def walk(self, v, out):
        if isinstance(v, list):
            for y in v:
                self.walk(y, out)
        elif isinstance(v, dict):
            if isinstance(v.get("inst"), int):
                out.add(v["inst"])
                for a in v.get("args") or ():
                    if isinstance(a, int):
                        out |= self.type_insts(a)
            s = v.get("static")
            if isinstance(s, str) and s in self.p.statics:
                out.update(f for f in self.p.statics[s]["fns"])
            for y in v.values():
                if isinstance(y, (list, dict)):
                    self.walk(y, out)

    def reach(self, starts):
        """inst -> predecessor"""
        pre = {i: None for i in starts}
        q = collections.deque(starts)
        while q:
            i = q.popleft()
            for j in self.succs(i):
                if j not in pre:
                    pre[j] = i
                    q.append(j)
        return pre

    def path(self, pre, i):
        out = []
        while i is not None:
            out.append(self.p.insts[i]["n"])
            i = pre[i]
        return " <- ".join(out)


def public_roots(p):
    return [r for r in p.roots if (r["pub"] or r["trait"] is not None) and r["insts"]]


PURE = {"core", "alloc", "digest", "generic_array", "zeroize", "thiserror", "libsecp256k1", "unicode_normalization", "hex", "bs58", "subtle", "pbkdf2", "sha2",
        "hmac", "ripemd", "encoding", "encoding_index_simpchinese", "anyhow", "once_cell", "crypto_mac", "crypto_common", "block_buffer", "typenum", "libsecp256k1_core",
        "rustc_hash", "tinyvec", "lazy_static", "arrayref", "base64"}
RANDOM = {"rand", "rand_core", "rand_chacha", "getrandom"}
IO = re.compile(r"\bstd::(io|fs|net|env|process|os|path::Path::(exists|is_|metadata|read|canonicalize)|panic::(set_hook|take_hook)|sys|backtrace)\b|\bstd::io::_e?print")
THREAD = re.compile(r"\bstd::(thread)\b")
CLOCK = re.compile(r"\bstd::time\b|\bcore::time::.*now")
RSTATE = re.compile(r"RandomState")
ADDRESS = re.compile(r"fmt::Pointer|::addr\b|::expose_provenance|Location::caller")
SAMEOBJ = re.compile(r"ptr::eq\b|ptr::addr_eq|Rc::.*ptr_eq|Arc::.*ptr_eq|::strong_count|::weak_count")
ORDERLESS = re.compile(r"::sort|sort_unstable|BTree|BinaryHeap|::(any|all|count|sum|min|max|min_by\w*|max_by\w*|contains)\b|hash::(map|set)|std::collections::hash.*(extend|from_iter)")
MUTABLE = re.compile(r"\bcore::(cell|sync::atomic)|\bstd::sync|\bstd::cell|\bonce_cell::(sync::OnceCell|unsync)")


def leaves_of(p, pre):
    return [i for i in pre if p.insts[i]["body"] is None]


def leaf_name(p, i):
    x = p.insts[i]
    return x["n"]


def type_args(p, i):
    return " ".join(p.tstr(a) for a in p.insts[i].get("args") or () if isinstance(a, int))


def effects(p, i):
    """effect classes of a function without a body here"""
    x = p.insts[i]
    n, kr = x["n"], x["krate"]
    out = set()
    if kr in RANDOM or (kr.startswith("libsecp256k1") and last(n) == "random"):
        out.add("randomness")
    if IO.search(n):
        out.add("I/O or process state")
    if THREAD.search(n):
        out.add("thread state")
    if CLOCK.search(n):
        out.add("clock")
    if kr in ("std", "alloc", "core") and ADDRESS.search(n):
        out.add("address or build identity")
    if kr in ("std", "alloc", "core") and SAMEOBJ.search(n):
        out.add("object identity")
    if kr == "std" and "hash" in n and re.search(r"::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|extract_if)$", n) and RSTATE.search(type_args(p, i) + n):
        out.add("randomised iteration order")
    if kr == "std" and RSTATE.search(n) and last(n) in ("new", "default", "build_hasher", "hash_one") and "HashMap" not in n and "HashSet" not in n:
        out.add("randomness")
    if kr == "std" and "DefaultHasher" in n and RSTATE.search(type_args(p, i)):
        out.add("randomness")
    return out


def orderless(p, pre, i):
    """functions of this crate on the way sort what they get, or only ask questions whose answer has no order"""
    j = pre[i]
    while j is not None:
        if p.insts[j]["body"]:
            for b in p.insts[j]["body"]["blocks"]:
                t = b[1]
                if isinstance(t, list) and t and t[0] == "call" and isinstance(t[1], dict) and ORDERLESS.search(str(t[1].get("n"))):
                    return True
        j = pre[j]
    return False


def ptr_to_int(p, i):
    """address of something turned into a number"""
    b = p.insts[i]["body"]
    out = []

    def walk(v, sp):
        if isinstance(v, list):
            if len(v) >= 2 and v[0] == "cast" and isinstance(v[1], str) and ("PointerExpose" in v[1] or "PointerToInt" in v[1]):
                out.append(v[1])
            for y in v:
                walk(y, sp)
        elif isinstance(v, dict):
            for y in v.values():
                walk(y, sp)
    walk(b["blocks"], None)
    return out


# ------------------------------------------------------------------ C46
def c46(c):
    p = c.k.p
    g = Graph(p)
    roots = public_roots(p)
    starts = sorted({i for r in roots for i in r["insts"]})
    pre = g.reach(starts)
    n = 0
    for i in leaves_of(p, pre):
        n += 1
        e = effects(p, i) & {"I/O or process state", "thread state"}
        for x in sorted(e):
            c.bad("effect of " + leaf_name(p, i), "%s is reachable: %s" % (x, g.path(pre, i)))
        if p.insts[i]["krate"] not in PURE | RANDOM | {"std", p.d["crate"]} and not e:
            c.unsure("effect of " + leaf_name(p, i), "code of crate %s is not known to be free of effects: %s" % (p.insts[i]["krate"], g.path(pre, i)))
    if not [o for o in c.obl if o[0] == "violated"]:
        c.ok("effects", "%d functions reachable from %d public operations, %d of them outside the analysed code: none does I/O or touches process or thread state" % (len(pre), len(roots), n))
    if p.d["unsafe"]:
        for u in p.d["unsafe"]:
            c.bad("unsafe code", "unsafe code at %s" % (u,))
    else:
        c.ok("unsafe code", "no unsafe block, function, trait implementation or foreign item in the crate")
    for im in p.d["impls"]:
        if im["unsafe"] and not im["derived"]:
            c.bad("unsafe impl", "unsafe impl %s for %s at %s" % (im["trait"], im["self"], im["span"]))
    globals_(c, g, pre)


LAZY = re.compile(r"(once_cell::(sync|race)::Lazy|std::sync::(LazyLock|lazy_lock::LazyLock|poison::[a-z_]+::LazyLock))<")
ONCE = re.compile(r"(once_cell::(sync|race)::Once(Cell|Box|NonZeroUsize|Bool)|std::sync::(once_lock::)?OnceLock|std::sync::(once|poison::once)::Once\b|std::sync::Once\b)")


def globals_(c, g, pre):
    """statics: not mutable; interior mutability only as write-once cells whose content does not depend on the call that fills them"""
    p = c.k.p
    used = set()
    for i in pre:
        if p.insts[i]["body"]:
            named(p.insts[i]["body"]["blocks"], used)
    todo = list(used)
    while todo:
        s = p.statics.get(todo.pop())
        if s and isinstance(s.get("val"), (dict, list)):
            more = set()
            named(s["val"], more)
            todo += more - used
            used |= more
    for s in p.d["statics_local"]:
        t = p.types[s["ty"]]["str"]
        key = "static " + s["n"]
        if not s["mut"] and s["freeze"] and not s.get("tls"):
            c.ok(key, "immutable data of type " + t)
        elif s["n"] not in used:
            c.ok(key, "no public operation reaches it")
        elif s["mut"]:
            c.bad(key, "mutable static of type %s at %s" % (t, s["span"]))
        elif s.get("tls"):
            c.bad(key, "thread-local static of type %s at %s" % (t, s["span"]))
        elif LAZY.match(t) and not mutable_inside(p, s["ty"]):
            c.ok(key, "initialised once by an initialiser without arguments, immutable afterwards: " + t)
        elif ONCE.match(t) and not mutable_inside(p, s["ty"]):
            once(c, key, t, pre, g)
        else:
            c.bad(key, "static with interior mutability, reachable from public operations: %s at %s" % (t, s["span"]))
    for i in pre:
        if re.search(r"thread::local|LocalKey", p.insts[i]["n"]) and p.insts[i]["krate"] in ("std", "core", p.d["crate"]):
            c.bad("thread local", "thread-local state is reachable: " + g.path(pre, i))


def named(v, out):
    if isinstance(v, list):
        for y in v:
            named(y, out)
    elif isinstance(v, dict):
        if isinstance(v.get("static"), str):
            out.add(v["static"])
        for y in v.values():
            if isinstance(y, (list, dict)):
                named(y, out)


def once(c, key, t, pre, g):
    """a write-once cell is harmless when what fills it captures nothing of the call"""
    p = c.k.p
    fills = [i for i in pre if re.search(r"(OnceLock|OnceCell|Once(Box|Bool|NonZeroUsize)?)(::<.*>)?(<.*>)?::(get_or_init|get_or_try_init|set|try_insert|take|get_mut|call_once\w*)$", p.insts[i]["n"])]
    for i in fills:
        m = last(p.insts[i]["n"])
        if m not in ("get_or_init", "get_or_try_init", "call_once"):
            c.bad(key, "write-once cell filled with data of the call (%s): %s" % (m, g.path(pre, i)))
            return
        for a in p.insts[i]["args"] or ():
            if isinstance(a, int) and p.types[a]["k"] == "closure" and p.types[a].get("up"):
                c.bad(key, "write-once cell filled by a closure that captures data of the call: %s" % g.path(pre, i))
                return
    c.ok(key, "write-once cell filled by initialisers without arguments: " + t)


def mutable_inside(p, ti):
    """an interior-mutable type among the type arguments of a once-cell"""
    t = p.types[ti]
    return any(isinstance(a, int) and re.search(r"Mutex|RwLock|Cell<|Atomic|OnceCell|OnceLock|UnsafeCell", p.types[a]["str"]) and not p.types[a]["k"].startswith("fn") for a in t.get("args") or ())


# ------------------------------------------------------------------ C45
def c45(c):
    p = c.k.p
    g = Graph(p)
    fresh = [r for r in p.roots if r["name"] == "new" and r["self"] and last(r["self"]) == "Mnemonic"]
    fi = {i for r in fresh for i in r["insts"]}
    n = 0
    for r in public_roots(p):
        if set(r["insts"]) & fi:
            continue
        pre = g.reach([i for i in r["insts"]])
        n += 1
        for i in pre:
            x = p.insts[i]
            if i in fi:
                # calling fresh generation makes the caller depend on randomness
                c.bad("%s" % r["n"], "its result depends on fresh randomness: " + g.path(pre, i))
            if x["body"] is None:
                for e in sorted(effects(p, i)):
                    soft = e == "object identity" or e.startswith("randomised it") and orderless(p, pre, i)
                    (c.unsure if soft else c.bad)("%s" % r["n"], "%s may influence the result: %s" % (e, g.path(pre, i)))
            elif x["krate"] == p.d["crate"]:
                for k in ptr_to_int(p, i):
                    c.bad("%s" % r["n"], "an address becomes a number (%s): %s" % (k, g.path(pre, i)))
    if not c.obl:
        c.ok("inputs of results", "%d public operations other than fresh generation: no randomness, clock, environment, address or thread state reachable" % n)
    # earlier calls: state that outlives a call
    pre = g.reach(sorted({i for r in public_roots(p) for i in r["insts"]}))
    globals_(c, g, pre)
    inner = interior(c)
    if inner is not None:
        for n_, why in inner:
            c.bad("state in " + n_, why)
        if not inner:
            c.ok("state in values", "no public type has interior mutability")


def interior(c):
    out = []
    for a in c.k.p.d["adts"]:
        if a["pub"] and a["freeze"] is False:
            out.append((a["n"], "%s has interior mutability, so a call through a shared reference can change later results (%s)" % (a["n"], a["span"])))
    return out


# ------------------------------------------------------------------ C47
SHARED = ("Mnemonic", "Seed", "ExtendedKey", "ExtendedKeyAttrs", "ExtendedPrivateKey", "ExtendedPublicKey", "DerivationPath", "ChildNumber", "Prefix", "Language",
          "WordList", "WordMap", "MnemonicType")


def c47(c):
    p = c.k.p
    by = collections.defaultdict(list)
    for a in p.d["adts"]:
        by[last(a["n"])].append(a)
    for n in SHARED:
        for a in by.get(n, ()):
            for what in ("send", "sync"):
                if a[what] is True:
                    c.ok("%s is %s" % (a["n"], what.capitalize()), "decided by the type checker for %s" % p.types[a["ty"]]["str"] if isinstance(a.get("ty"), int) else "decided by the type checker")
                elif a[what] is False:
                    c.bad("%s is %s" % (a["n"], what.capitalize()), "%s (%s) is not %s" % (a["n"], a["span"], what.capitalize()))
                else:
                    c.unsure("%s is %s" % (a["n"], what.capitalize()), "no instance to ask the type checker about")
    for a in p.d["adts"]:
        if a["pub"] and last(a["n"]) not in SHARED:
            for what in ("send", "sync"):
                if a[what] is False and "rror" in a["n"]:
                    c.bad("%s is %s" % (a["n"], what.capitalize()), "%s (%s) is not %s" % (a["n"], a["span"], what.capitalize()))
    for n_, why in interior(c):
        c.bad("shared reads of " + n_, why)
    for im in p.d["impls"]:
        if im["unsafe"] and not im["derived"] and im["trait"] and last(im["trait"]) in ("Send", "Sync"):
            c.bad("forced " + last(im["trait"]), "unsafe impl %s for %s at %s overrides the type checker" % (im["trait"], im["self"], im["span"]))
    g = Graph(p)
    globals_(c, g, g.reach(sorted({i for r in public_roots(p) for i in r["insts"]})))
