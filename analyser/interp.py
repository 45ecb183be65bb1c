"""Abstract interpreter over the dumped MIR: disjunctive states (guard, memory), merged at joins."""
import heapq
import json
import sys
import time

from core import *

sys.setrecursionlimit(20000)

UNIT = ("tup", ())
OPT, RES = "core::option::Option", "core::result::Result"
NONE = ("adt", OPT, 0, ())


def some(v):
    return ("adt", OPT, 1, (v,))


def ok(v):
    return ("adt", RES, 0, (v,))


def err(v):
    return ("adt", RES, 1, (v,))


def arr(els):
    return ("arr", tuple(els))


def ref(v):
    return ("&", v)


def string(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return ("str", tuple(out))


def top(why):
    return ("top", why)


def istop(v):
    return isinstance(v, tuple) and len(v) and v[0] == "top"


class State:
    __slots__ = ("g", "mem", "dead")

    def __init__(self, g, mem):
        self.g, self.mem = g, mem

    def copy(self):
        return State(self.g, dict(self.mem))


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types, self.insts = d["types"], d["insts"]
        self.roots = d["roots"]
        self.strtab = d["strtab"]
        self.statics = {s["n"]: s for s in d["statics"]}
        self.byname = {}
        for i, x in enumerate(self.insts):
            x["id"] = i
            self.byname.setdefault(x["n"], []).append(i)
        self.rootby = {}
        for r in self.roots:
            self.rootby.setdefault(r["n"], r)
        self.adtty = {}
        for i, t in enumerate(self.types):
            t["id"] = i
            if t["k"] == "adt":
                self.adtty.setdefault(t["n"], []).append(i)
        self.ov = d["overflow_checks"]

    def tstr(self, i):
        return self.types[i]["str"]


STD = ("core", "alloc", "std")


def mux(f, a, b):
    """the value that is a when f holds and b otherwise, None when it cannot be expressed"""
    if a is b or type(a) is type(b) and a == b:
        return a
    if type(a) in (int, Term) and type(b) in (int, Term):
        na, nb_ = type(a) is int or bool(a.w), type(b) is int or bool(b.w)
        if na != nb_:
            return None
        if not na:
            if {a.op, b.op} <= BOOLS:
                return Or(And(f, a), And(Not(f), b))
            return None
        ws = [x.w for x in (a, b) if type(x) is Term]
        w = max(ws) if ws else next(n for n in (8, 16, 32, 64, 128) if a >> n == b >> n == 0)
        return mkbv(tuple(x if x is y or type(x) is int and type(y) is int and x == y else fb(Or(And(f, ff(x)), And(Not(f), ff(y))))
                          for x, y in zip(bits(a, w), bits(b, w))))
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and len(a) == len(b):
        if a[0] in ("tup", "arr") and len(a) == 2 and len(a[1]) == len(b[1]):
            out = [mux(f, x, y) for x, y in zip(a[1], b[1])]
        elif a[0] == "adt" and len(a) == 4 and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
            out = [mux(f, x, y) for x, y in zip(a[3], b[3])]
        else:
            return None
        if any(x is None for x in out):
            return None
        return a[:-1] + (tuple(out),)
    return None


BOOLS = {"b", "and", "or", "not", "p", "in", "eqs", "true", "false"}


def crash(e):
    import traceback
    t = traceback.extract_tb(e.__traceback__)[-3:]
    return "%s: %s at %s" % (type(e).__name__, str(e)[:80], " < ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in reversed(t)))


class Outcome:
    """one way an entry point can end"""

    def __init__(self, kind, g, val=None, mem=None, where=None, msg=None, refs=None):
        self.kind, self.g, self.val, self.mem, self.where, self.msg = kind, g, val, mem, where, msg


class Interp:
    def __init__(self, prog, models):
        self.p = prog
        self.models = models
        self.fid = 0
        self.static_cache = prog.__dict__.setdefault("static_cache", {})
        self.panics = []        # (guard, where, msg, stack)
        self.stack = []
        self.steps = 0
        self.max_steps = 3_000_000
        self.deadline = None
        self.hooks = []
        self.seen_fns = set()
        self.notes = set()      # unmodelled callees met
        self.calls_seen = 0
        self.constc = {}
        self.tables = {}
        self.tmp = 0
        self.fmtdepth = 0
        self.rawbox = self.boxf = False
        self.fail_at = None
        self.lost = []          # paths given up: (guard, why, where)
        self.lucky = ()
        self.branch_log = None
        self.run_drops = False
        self.ret_hook = None
        self.official = {}

    # ------------------------------------------------------------------ constants
    def const(self, j, ty):
        t = self.p.types[ty]
        k = t["k"]
        if j is None:
            if k == "fndef":
                return ("fn", ty)
            raise Undecided("const")
        if "int" in j:
            if k == "bool":
                return TRUE if j["int"] else FALSE
            return int(j["int"])
        if "zst" in j:
            t = self.p.types[j["zst"]]
            if t["k"] == "fndef":
                return ("fn", j["zst"])
            if t["k"] == "closure":
                return ("clo", j["zst"], ())
            return ("tup", ())
        if "fn" in j:
            return ("fnp", j["fn"])
        if "static" in j:
            return ("&", ("static", j["static"]))
        if "ref" in j:
            r = j["ref"]
            if "str" in r:
                return ("&", string(r["str"]))
            if "strtab" in r:
                return ("&", string(self.p.strtab[r["strtab"]]))
            if "tup" in r and k == "ref" and self.p.types[t["t"]]["k"] in ("array",):
                return ("&", ("arr", ()))
            return ("&", self.const(r, t["t"] if k in ("ref", "ptr") else ty))
        if "arr" in j:
            et = t.get("t", ty)
            key = None
            return ("arr", tuple(self.const(x, et) for x in j["arr"]))
        if "tup" in j:
            ts = t.get("ts") or []
            if k == "adt":
                return self.adt(ty, 0, ())
            return ("tup", tuple(self.const(x, ts[i] if i < len(ts) else ty) for i, x in enumerate(j["tup"])))
        if "adt" in j:
            ti = j["adt"]
            t = self.p.types[ti]
            fts = t["vars"][j["v"]]["f"] if t.get("deep") and j["v"] < len(t["vars"]) else None
            fs = []
            for i, x in enumerate(j["f"]):
                fs.append(self.const(x, fts[i][1]) if fts else self.const_loose(x))
            return self.adt(ti, j["v"], tuple(fs))
        return top("constant %s of type %s" % (list(j)[:1], t["str"]))

    def const_loose(self, j):
        if "int" in j:
            return int(j["int"])
        return top("constant")

    def adt(self, ti, v, fs):
        t = self.p.types[ti]
        if t["krate"] in STD or t["krate"] != self.p.d["crate"]:
            n = t["n"]
            if n == "alloc::string::String" or n == "alloc::vec::Vec":
                return ("arr", ()) if n.endswith("Vec") else ("str", ())
            return ("adt", n, v, fs)
        return ("adt", ti, v, fs)

    # ------------------------------------------------------------------ memory
    def read(self, st, obj, path):
        if obj not in st.mem:
            raise Undecided("read of dead object")
        v = st.mem[obj]
        for c in path:
            v = self.proj(v, c)
        return v

    def proj(self, v, c):
        if istop(v):
            return v
        k = v[0] if isinstance(v, tuple) else None
        if isinstance(c, int):
            if k == "adt":
                if c >= len(v[3]):
                    raise Undecided("field of wrong variant")
                return v[3][c]
            if k in ("tup",):
                return v[1][c]
            if k == "clo":
                return v[2][c]
            if k == "box":
                return v
            return top("field of %s" % k)
        if c == "b":
            if k == "box":
                return v[1]
            return v
        if c[0] == "i":
            if k == "arr":
                if c[1] < len(v[1]) and not any(isT(e, "sp") for e in v[1][:c[1] + 1]):
                    return v[1][c[1]]
            return top("index into %s" % k)
        if c[0] == "s":
            if k == "arr":
                return ("arr", v[1][c[1]:c[2]])
            return top("slice of %s" % k)
        raise Undecided("projection %r" % (c,))

    def put(self, v, path, new):
        if not path:
            return new
        c = path[0]
        if istop(v):
            return v
        k = v[0] if isinstance(v, tuple) else None
        if isinstance(c, int):
            sub = self.put(self.proj(v, c), path[1:], new)
            if k == "adt":
                return (k, v[1], v[2], v[3][:c] + (sub,) + v[3][c + 1:])
            if k == "tup":
                return (k, v[1][:c] + (sub,) + v[1][c + 1:])
            if k == "clo":
                return (k, v[1], v[2][:c] + (sub,) + v[2][c + 1:])
            return top("write to field of %s" % k)
        if c == "b":
            if k == "box":
                return ("box", self.put(v[1], path[1:], new))
            return self.put(v, path[1:], new)
        if c[0] == "i":
            if k == "arr" and c[1] < len(v[1]):
                return ("arr", v[1][:c[1]] + (self.put(v[1][c[1]], path[1:], new),) + v[1][c[1] + 1:])
            return top("indexed write to %s" % k)
        if c[0] == "s":
            if k == "arr":
                sub = self.put(("arr", v[1][c[1]:c[2]]), path[1:], new)
                if istop(sub):
                    return top(sub[1])
                if sub[0] == "arr" and len(sub[1]) == c[2] - c[1]:
                    return ("arr", v[1][:c[1]] + sub[1] + v[1][c[2]:])
            return top("sub-slice write to %s" % k)
        raise Undecided("projection %r" % (c,))

    def write(self, st, r, val):
        """write through a mutable reference value"""
        if r[0] == "&m":
            st.mem[r[1]] = self.put(st.mem[r[1]], r[2], val)
            return
        if istop(r):
            return
        raise Undecided("write through %s" % r[0])

    def deref(self, st, r):
        """value a reference (or box) points to"""
        if not isinstance(r, tuple):
            raise Undecided("deref of %r" % (r,))
        if r[0] == "&":
            v = r[1]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "static":
                return self.static(v[1])
            return v
        if r[0] == "&m":
            return self.read(st, r[1], r[2])
        if r[0] == "box":
            return r[1]
        if r[0] == "top":
            return r
        return r

    def full(self, st, r):
        """strip all references"""
        n = 0
        while isinstance(r, tuple) and r and r[0] in ("&", "&m", "box") and n < 8:
            r = self.deref(st, r)
            n += 1
        return r

    def static(self, name):
        if name in self.static_cache:
            return self.static_cache[name]
        s = self.p.statics.get(name)
        if s is None:
            return top("static " + name)
        t = self.p.types[s["ty"]]
        if "once_cell" in t["str"] or "LazyLock" in t["str"] or "OnceLock" in t["str"] or "OnceCell" in t["str"]:
            v = ("lazy", name)
        else:
            v = self.const(s["val"], s["ty"]) if s["val"] else top("static " + name)
        self.static_cache[name] = v
        return v

    def force(self, name):
        """value of a lazily initialised static: abstract result of its initialiser"""
        key = ("force", name)
        if key in self.static_cache:
            return self.static_cache[key]
        s = self.p.statics.get(name)
        fns = [f for f in s["fns"]] if s else []
        cands = [f for f in fns if self.p.insts[f]["body"] and self.p.insts[f]["body"]["argc"] <= 2]
        if not cands:
            self.static_cache[key] = top("static " + name)
            return self.static_cache[key]
        f = cands[0]
        args = [UNIT] * self.p.insts[f]["body"]["argc"]
        outs = self.call_whole(f, args, State(Guard(), {}))
        if len(outs) != 1:
            v = top("initialiser of %s has %d outcomes" % (name, len(outs)))
        else:
            v = outs[0][1]
        self.static_cache[key] = v
        return v

    # ------------------------------------------------------------------ branching
    def split(self, st, f):
        """-> (states where f, states where not f)"""
        e = st.g.eval(f)
        if e is True:
            return [st], []
        if e is False:
            return [], [st]
        if self.lucky and type(f) is Term:
            # only the paths on which the named conditions hold are wanted
            if f.op == "p" and f.args[0] in self.lucky:
                return [st], []
            if f.op == "not" and type(f.args[0]) is Term and f.args[0].op == "p" and f.args[0].args[0] in self.lucky:
                return [], [st]
        if self.branch_log is not None:
            self.branch_log.append((f, self.where()))
        a, b = [], []
        for g in st.g.assume(f, True):
            s = st.copy()
            s.g = g
            a.append(s)
        for g in st.g.assume(f, False):
            s = st.copy()
            s.g = g
            b.append(s)
        return a, b

    def where(self):
        # innermost local frame
        for name, span in reversed(self.stack):
            if span and span[0].startswith("src"):
                return [name, span]
        return list(self.stack[-1]) if self.stack else ["?", None]

    def panic(self, st, msg):
        self.panics.append(Outcome("panic", st.g, where=self.where(), msg=msg))

    # ------------------------------------------------------------------ places
    def place_ty(self, body, pl):
        t = body["locals"][pl[0]]
        for e in pl[1:]:
            ty = self.p.types[t]
            if e == "*":
                if ty["k"] in ("ref", "ptr"):
                    t = ty["t"]
                elif ty["k"] == "adt" and ty["args"]:
                    t = ty["args"][0]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = ty.get("t", t)
        return t

    def locate(self, st, fid, pl):
        """-> ('obj', obj, path) for a mutable location or ('val', value) when behind a shared ref"""
        obj, path = (fid, pl[0]), ()
        val = None
        for e in pl[1:]:
            if val is not None:
                if e == "*":
                    val = (self.deref(st, val[0]),)
                elif e[0] == "f":
                    val = (self.proj(val[0], e[1]),)
                elif e[0] == "d":
                    self.chkvar(val[0], e[1])
                else:
                    r = self.elem(st, fid, val[0], e)
                    val = (r[1],) if r[0] == "v" else (self.proj(val[0], r[1]),)
                continue
            if e == "*":
                r = self.read(st, obj, path)
                if istop(r):
                    return ("val", r)
                if r[0] == "&m":
                    obj, path = r[1], r[2]
                elif r[0] == "box":
                    path = path + ("b",)
                elif r[0] == "&":
                    val = (self.deref(st, r),)
                else:
                    # smart pointers represented transparently
                    pass
            elif e[0] == "f":
                if self.rawbox and self.isbox(st, obj, path):
                    self.boxf = True        # raw pointer inside a box: stay at the box
                else:
                    path = path + (e[1],)
            elif e[0] == "d":
                self.chkvar(self.read(st, obj, path), e[1])
            else:
                r = self.elem(st, fid, self.read(st, obj, path), e)
                if r[0] == "v":
                    val = (r[1],)
                else:
                    path = path + (r[1],)
        return ("obj", obj, path) if val is None else ("val", val[0])

    def chkvar(self, v, vi):
        if isinstance(v, tuple) and v and v[0] == "adt" and v[2] != vi:
            raise Undecided("downcast to wrong variant")

    def elem(self, st, fid, v, e):
        n = len(v[1]) if isinstance(v, tuple) and v[0] == "arr" else None
        if n is not None and any(isT(x, "sp") for x in v[1]):
            from vals import expand
            x = expand(st.g, v[1])
            if not any(isT(y, "sp") for y in x):
                r = self.elem(st, fid, ("arr", x), e)
                if r[0] == "p":
                    return ("v", self.proj(("arr", x), r[1]))
                return r
        if e[0] == "i":
            i = st.mem[(fid, e[1])]
            c = st.g.const(i) if not istop(i) else None
            if c is None:
                if istop(i) or n is None:
                    return ("v", top("symbolic index"))
                return ("v", self.models.select(self, st, v, i))
            return ("p", ("i", c))
        if n is None:
            return ("v", top("slice pattern on %s" % (v[0],)))
        if any(isT(x, "sp") for x in v[1]):
            return ("v", top("pattern on unsized part"))
        if e[0] == "ci":
            return ("p", ("i", n - e[1] if e[2] else e[1]))
        if e[0] == "sl":
            return ("p", ("s", e[1], n - e[2] if e[3] else e[2]))
        raise Undecided("place %r" % (e,))

    def rdplace(self, st, fid, pl):
        if len(pl) == 1:
            try:
                return st.mem[(fid, pl[0])]
            except KeyError:
                return top("uninitialised")
        self.rawbox, self.boxf = True, False
        try:
            r = self.locate(st, fid, pl)
        finally:
            self.rawbox = False
        if self.boxf and r[0] == "obj":
            return ("&m", r[1], r[2] + ("b",))
        return r[1] if r[0] == "val" else self.read(st, r[1], r[2])

    def isbox(self, st, obj, path):
        try:
            v = self.read(st, obj, path)
        except Undecided:
            return False
        return isinstance(v, tuple) and len(v) == 2 and v[0] == "box"

    def wrplace(self, st, fid, pl, v):
        if len(pl) == 1:
            st.mem[(fid, pl[0])] = v
            return
        obj0 = (fid, pl[0])
        if obj0 not in st.mem:
            st.mem[obj0] = top("uninitialised")
        r = self.locate(st, fid, pl)
        if r[0] == "val":
            if istop(r[1]):
                return
            raise Undecided("write behind a shared reference")
        st.mem[r[1]] = self.put(st.mem[r[1]], r[2], v)

    def operand(self, st, fid, op):
        if op[0] in ("c", "m"):
            return self.rdplace(st, fid, op[1])
        if op[0] == "k":
            key = (id(op),)
            v = self.constc.get(key)
            if v is None:
                v = self.const(op[2], op[1])
                self.constc[key] = v
            return v
        if op[0] == "rc":
            if "Overflow" in op[1]:
                return TRUE if self.p.ov else FALSE
            return FALSE
        raise Undecided("operand")

    def op_ty(self, body, op):
        if op[0] in ("c", "m"):
            return self.place_ty(body, op[1])
        if op[0] == "k":
            return op[1]
        return None

    # ------------------------------------------------------------------ rvalues
    def width(self, ty):
        t = self.p.types[ty]
        if t["k"] == "int":
            return t["w"], t["s"]
        if t["k"] == "bool":
            return 1, False
        if t["k"] == "char":
            return 32, False
        return 64, False

    def rvalue(self, st, fid, body, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fid, rv[1])
        if k == "ref":
            pl = rv[1]
            if rv[2]:
                r = self.locate(st, fid, pl)
                if r[0] == "val":
                    return ("&", r[1])
                return ("&m", r[1], r[2])
            return ("&", self.rdplace(st, fid, pl))
        if k == "agg":
            vs = tuple(self.operand(st, fid, x) for x in rv[2])
            if rv[1] == "arr":
                return ("arr", vs)
            if rv[1] == "tup":
                return ("tup", vs)
            if rv[1] == "adt":
                if rv[5]:
                    return top("union")
                return self.adt(rv[3], rv[4], vs)
            if rv[1] == "closure":
                return ("clo", rv[3], vs)
            return top("aggregate")
        if k == "repeat":
            n = rv[2]
            if not isinstance(n, int):
                return top("repeat count")
            return ("arr", (self.operand(st, fid, rv[1]),) * n)
        if k == "bin":
            a, b = self.operand(st, fid, rv[2]), self.operand(st, fid, rv[3])
            return self.binop(st, rv[1], a, b, self.op_ty(body, rv[2]), self.op_ty(body, rv[3]))
        if k == "un":
            a = self.operand(st, fid, rv[2])
            if istop(a):
                return a
            ty = self.op_ty(body, rv[2])
            w, s = self.width(ty)
            if rv[1] == "Not":
                return Not(a) if self.p.types[ty]["k"] == "bool" else (a ^ ((1 << w) - 1) if type(a) is int else bvnot(a, w))
            if rv[1] == "Neg":
                return (-a) & ((1 << w) - 1) if type(a) is int else neg(a, w)
            if rv[1] == "PtrMetadata":
                v = self.full(st, a)
                return self.models.length(v)
            return top("unary " + rv[1])
        if k == "discr":
            v = self.rdplace(st, fid, rv[1])
            if istop(v):
                return v
            if v[0] == "adt":
                ti = v[1]
                if isinstance(ti, int):
                    return int(self.p.types[ti]["vars"][v[2]]["d"])
                if ti == "core::cmp::Ordering":
                    return (v[2] - 1) & 0xff
                return v[2]
            return top("discriminant")
        if k == "cast":
            v = self.operand(st, fid, rv[2])
            return self.cast(st, rv[1], v, self.op_ty(body, rv[2]), rv[3])
        return top("rvalue " + k)

    def cast(self, st, kind, v, fty, tty):
        if istop(v):
            return v
        if kind == "IntToInt":
            f = self.p.types[fty]
            w, _ = self.width(tty)
            if f["k"] == "bool":
                return mkbv((fb(v),) + (0,) * (w - 1))
            if f["k"] == "adt" or (isinstance(v, tuple) and v[0] == "adt"):
                return int(self.p.types[v[1]]["vars"][v[2]]["d"]) & ((1 << w) - 1)
            fw, fs = self.width(fty)
            if w <= fw:
                return trunc(v, w)
            if fs:
                if type(v) is int:
                    return (v - (1 << fw) if v >> (fw - 1) else v) & ((1 << w) - 1)
                b = bits(v, fw)
                return mkbv(b + (b[-1],) * (w - fw))
            if type(v) is int:
                return v
            return mkbv(bits(v, w))
        if kind.startswith("pc:Unsize"):
            # keep the pointee's static type when it becomes a trait object
            tt = self.p.types[tty]
            if tt["k"] in ("ref", "ptr") and self.p.types[tt["t"]]["k"] == "dyn":
                ft = self.p.types[fty]
                return ("&", ("dyn", ft.get("t"), self.deref(st, v))) if v[0] == "&" else v
            if tt["k"] == "adt" and tt["args"] and self.p.types[tt["args"][0]]["k"] == "dyn":
                return v
            return v
        if kind.startswith("pc:"):
            return v
        if kind == "BoxDerefTransmute":
            return v
        if kind in ("Transmute", "PtrToPtr", "FnPtrToPtr", "Subtype"):
            if kind == "Transmute":
                return self.models.transmute(self, st, v, fty, tty)
            return v
        return top("cast " + kind)

    def binop(self, st, op, a, b, ta, tb):
        if istop(a):
            return a
        if istop(b):
            return b
        base = op
        for suf in ("WithOverflow", "Unchecked"):
            base = base.replace(suf, "")
        tk = self.p.types[ta]["k"] if ta is not None else "int"
        w, signed = self.width(ta)
        if tk == "bool":
            x, y = a, b
            if base == "BitAnd":
                return And(x, y)
            if base == "BitOr":
                return Or(x, y)
            if base in ("BitXor", "Ne"):
                return ff(b_xor(fb(x), fb(y)))
            if base == "Eq":
                return Not(ff(b_xor(fb(x), fb(y))))
            if base == "Lt":
                return And(Not(x), y)
            if base == "Le":
                return Or(Not(x), y)
            if base == "Gt":
                return And(x, Not(y))
            if base == "Ge":
                return Or(x, Not(y))
            return top("bool " + op)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if tk == "adt" or tk in ("ref", "ptr", "fnptr"):
                return top("pointer comparison")
            return top("operator on %s" % (a[0] if isinstance(a, tuple) else b[0]))
        g = st.g
        if base in ("Eq", "Ne"):
            f = eq(a, b, w)
            return f if base == "Eq" else Not(f)
        if base in ("Lt", "Le", "Gt", "Ge", "Cmp"):
            if signed:
                if type(a) is int and type(b) is int:
                    H = 1 << (w - 1)
                    a, b = a ^ H, b ^ H
                else:
                    H = 1 << (w - 1)
                    a = a ^ H if type(a) is int else add(a, H, w)
                    b = b ^ H if type(b) is int else add(b, H, w)
            if base == "Lt":
                return ult(a, b, w, g)
            if base == "Gt":
                return ult(b, a, w, g)
            if base == "Le":
                return Not(ult(b, a, w, g))
            if base == "Ge":
                return Not(ult(a, b, w, g))
            return top("three-way comparison")
        M = (1 << w) - 1
        if base in ("BitAnd", "BitOr", "BitXor"):
            return bitop({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[base], a, b, w)
        if base in ("Shl", "Shr"):
            c = g.const(b)
            if c is None:
                if type(a) is int and a == 0:
                    return 0
                return tv(T("shift", base, a, b, w=w))
            c &= w - 1 if w & (w - 1) == 0 else M
            r = shl(a, c, w) if base == "Shl" else shr(a, c, w, signed)
            return r
        if base in ("Add", "Sub", "Mul"):
            if base == "Add" and type(b) is int and b and type(a) is Term and b & (b - 1) == 0:
                # adding a bit known to be zero is setting it
                i = b.bit_length() - 1
                if g.eval(ff(bits(a, w)[i])) is False:
                    x = list(bits(a, w))
                    x[i] = 1
                    r = mkbv(tuple(x))
                    return ("tup", (r, FALSE)) if op.endswith("WithOverflow") else r
            if base == "Sub" and type(b) is int and b and type(a) is Term and b & (b - 1) == 0:
                i = b.bit_length() - 1
                if g.eval(ff(bits(a, w)[i])) is True:
                    x = list(bits(a, w))
                    x[i] = 0
                    r = mkbv(tuple(x))
                    return ("tup", (r, FALSE)) if op.endswith("WithOverflow") else r
            r = {"Add": add, "Sub": sub, "Mul": mul}[base](a, b, w)
            if op.endswith("WithOverflow"):
                return ("tup", (r, self.overflow(g, base, a, b, w, signed)))
            return r
        if base in ("Div", "Rem"):
            if signed and not (type(a) is int and type(b) is int):
                return top("signed division")
            c = g.const(b)
            if c is None:
                return tv(T("divide", base, a, b, w=w))
            if c == 0:
                return top("division by zero")
            ca = g.const(a)
            if ca is not None:
                return ca // c if base == "Div" else ca % c
            if c & (c - 1) == 0:
                n = c.bit_length() - 1
                return shr(a, n, w) if base == "Div" else bitop("and", a, c - 1, w)
            d, k = lin_of(a, w)
            if all(x % c == 0 for x in d.values()) and g.range(a)[1] < M and sum(natural(t)[1] * x for t, x in d.items()) + k <= M:
                if base == "Rem":
                    return k % c
                return mk_lin({t: x // c for t, x in d.items()}, k // c, w)
            return tv(T("divide", base, a, c, w=w))
        return top("operator " + op)

    def overflow(self, g, base, a, b, w, signed):
        M = (1 << w) - 1
        if signed:
            if type(a) is int and type(b) is int:
                H = 1 << (w - 1)
                x, y = (v - (1 << w) if v & H else v for v in (a, b))
                r = {"Add": x + y, "Sub": x - y, "Mul": x * y}[base]
                return FALSE if -H <= r < H else TRUE
            return P("ovf", base, a, b)
        ra, rb = g.range(a), g.range(b)
        if base == "Add":
            if ra[1] + rb[1] <= M:
                return FALSE
            if ra[0] + rb[0] > M:
                return TRUE
            if type(b) is int:
                return in_val(a, ((M + 1 - b, M),), w)
            if type(a) is int:
                return in_val(b, ((M + 1 - a, M),), w)
        elif base == "Sub":
            if ra[0] >= rb[1]:
                return FALSE
            if ra[1] < rb[0]:
                return TRUE
            return ult(a, b, w, g)
        else:
            if ra[1] * rb[1] <= M:
                return FALSE
            if ra[0] * rb[0] > M:
                return TRUE
            if type(b) is int and b:
                return in_val(a, ((M // b + 1, M),), w)
            if type(a) is int and a:
                return in_val(b, ((M // a + 1, M),), w)
        return P("ovf", base, a, b)

    # ------------------------------------------------------------------ bodies
    def prep(self, inst):
        b = self.p.insts[inst]["body"]
        if b.get("live_drops") is self.run_drops:
            return b
        blocks = b["blocks"]
        n = len(blocks)
        succ = [self.succs(bl[1]) if bl else [] for bl in blocks]
        order, seen = [], set()

        def dfs(r):
            stack = [(r, iter(succ[r]))]
            seen.add(r)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        order.reverse()
        rpo = {x: i for i, x in enumerate(order)}
        # liveness of locals; locals that are mutably borrowed stay live
        borrowed = set()
        use, df = [set() for _ in blocks], [set() for _ in blocks]

        def places(x, acc):
            # collect base locals of every place below a json node
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list):
                    acc.add(x[1][0])
                    for e in x[1][1:]:
                        if isinstance(e, list) and e[0] == "i":
                            acc.add(e[1])
                    return
                for y in x:
                    places(y, acc)
            elif isinstance(x, dict):
                for y in x.values():
                    places(y, acc)

        def pl_use(pl, acc):
            acc.add(pl[0])
            for e in pl[1:]:
                if isinstance(e, list) and e[0] == "i":
                    acc.add(e[1])
        for i, bl in enumerate(blocks):
            if not bl:
                continue
            u, d = use[i], df[i]

            def useset(s):
                u.update(s - d)
            for stt, _ in bl[0]:
                if stt[0] == "=":
                    s = set()
                    rv = stt[2]
                    if rv[0] == "ref":
                        pl_use(rv[1], s)
                        if rv[2] and "*" not in rv[1][1:]:
                            borrowed.add(rv[1][0])
                    elif rv[0] == "discr":
                        pl_use(rv[1], s)
                    else:
                        places(rv[1:], s)
                    if len(stt[1]) > 1:
                        pl_use(stt[1], s)
                    useset(s)
                    if len(stt[1]) == 1:
                        d.add(stt[1][0])
                elif stt[0] == "sd":
                    s = set()
                    pl_use(stt[1], s)
                    useset(s)
                elif stt[0] == "assume":
                    s = set()
                    places(stt[1], s)
                    useset(s)
            t = bl[1]
            s = set()
            if t[0] == "ret":
                s.add(0)
            elif t[0] == "call":
                places(t[1], s)
                places(t[2], s)
                if len(t[3]) > 1:
                    pl_use(t[3], s)
                useset(s)
                s = set()
                if len(t[3]) == 1:
                    d.add(t[3][0])
            elif t[0] == "drop":
                pl_use(t[1], s)
                if not self.run_drops:
                    s = set()
            else:
                places(t, s)
            useset(s)
        live = [set() for _ in blocks]
        ch = True
        while ch:
            ch = False
            for x in reversed(order):
                o = set()
                for y in succ[x]:
                    o |= live[y]
                nw = use[x] | (o - df[x])
                if nw != live[x]:
                    live[x] = nw
                    ch = True
        for i, ti in enumerate(b["locals"]):
            if i and self.p.types[ti]["k"] == "adt" and self.p.types[ti]["n"] == "alloc::boxed::Box":
                borrowed.add(i)         # read through its raw pointer
        if self.run_drops == "keep":
            every = frozenset(range(len(b["locals"])))
            live = [every] * n
        b["live"] = [frozenset(l | borrowed) for l in live]
        b["live_drops"] = self.run_drops
        b["rpo"] = rpo
        return b

    def succs(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[4]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        return []

    def add_state(self, pend, st):
        far = len(pend) - 48
        for i, o in enumerate(pend):
            if i >= far and o.mem == st.mem:
                m = merge(o.g, st.g)
                if m is not None:
                    o.g = m
                    # may now merge with another
                    x = pend.pop(i)
                    return self.add_state(pend, x)
        pend.append(st)

    def squash(self, sts):
        """fold states that differ in one condition and in numbers only into one whose numbers depend on the condition"""
        done = []
        work = list(sts)
        while work:
            index = {}
            nxt = []
            hit = False
            for s in work:
                got = None
                keys = []
                iv, lit = frozenset(s.g.iv.items()), frozenset(s.g.lit.items())
                mk = frozenset(s.mem)
                for k, v in s.g.lit.items():
                    keys.append((mk, iv, lit - {(k, v)}, k))
                for k, v in s.g.iv.items():
                    keys.append((mk, iv - {(k, v)}, lit, k))
                for key in keys:
                    o = index.get(key)
                    if o is not None and o.g is not None:
                        got = self.fold(o, s, key[3])
                        if got is not None:
                            o.g = None
                            hit = True
                            nxt.append(got)
                            break
                if got is None:
                    for key in keys:
                        index[key] = s
                    nxt.append(s)
            work = [s for s in nxt if s.g is not None]
            if not hit:
                return work
        return work

    def fold(self, a, b, k):
        if k in a.g.lit:
            if a.g.lit[k] == b.g.lit.get(k) or k not in b.g.lit:
                return None
            g = a.g.copy()
            del g.lit[k]
            f = k if a.g.lit[k] else Not(k)
        else:
            ia, ib = a.g.iv[k], b.g.iv.get(k)
            if ib is None or iv_and(ia, ib):
                return None
            g = a.g.copy()
            g.iv[k] = iv_or(ia, ib)
            f = T("in", k, ia)
        mem = {}
        for key, x in a.mem.items():
            y = b.mem[key]
            if x is not y and x != y:
                x = mux(f, x, y)
                if x is None:
                    return None
            mem[key] = x
        return State(g, mem)

    def call_whole(self, inst, args, st):
        """call_inst, undecided unless every path was followed"""
        n = len(self.lost)
        outs = self.call_inst(inst, args, st)
        if len(self.lost) > n:
            raise Undecided(self.lost[n][1])
        return outs

    def call_inst(self, inst, args, st, check_depth=True):
        """abstractly execute an instance with a body -> [(state, value)]"""
        info = self.p.insts[inst]
        if len(self.stack) > 120:
            raise Budget("call depth in " + info["n"])
        body = self.prep(inst)
        if info["krate"] == self.p.d["crate"]:
            self.seen_fns.add(info["n"])
        self.fid += 1
        fid = self.fid
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        nl = len(body["locals"])
        blocks, live, rpo = body["blocks"], body["live"], body["rpo"]
        pend = {0: [st]}
        heap = [(0, 0)]
        rets = []
        self.stack.append((info["n"], info["span"]))
        depth = len(self.stack)
        visits = {}
        try:
            while heap:
                _, b = heapq.heappop(heap)
                sts = pend.pop(b, None)
                if not sts:
                    continue
                visits[b] = visits.get(b, 0) + 1
                if visits[b] > 20000:
                    raise Budget("loop in %s does not converge" % info["n"])
                if len(sts) > 4000:
                    sts = self.squash(sts)
                if len(sts) > 4000:
                    raise Budget("too many states in %s" % info["n"])
                bl = blocks[b]
                if bl is None:
                    continue
                for s0 in sts:
                    try:
                        succ = self.exec_block(s0, fid, body, bl, depth)
                    except Budget:
                        raise
                    except Exception as e:
                        # this path ends here; the others go on
                        self.lost.append((s0.g, str(e) if isinstance(e, Undecided) else "analyser: " + crash(e), self.fail_at or self.where()))
                        self.fail_at = None
                        del self.stack[depth:]
                        continue
                    for s, nxt in succ:
                        if nxt == "ret":
                            v = s.mem.get((fid, 0), UNIT)
                            if self.ret_hook is not None:
                                self.ret_hook(self, inst, body, fid, s, v)
                            for i in range(nl):
                                s.mem.pop((fid, i), None)
                            rets.append((s, v))
                            continue
                        lv = live[nxt]
                        for i in range(nl):
                            if i not in lv:
                                s.mem.pop((fid, i), None)
                        q = pend.get(nxt)
                        if q is None:
                            q = pend[nxt] = []
                            heapq.heappush(heap, (rpo[nxt], nxt))
                        self.add_state(q, s)
        except Exception:
            if self.fail_at is None:
                self.fail_at = self.where()
            raise
        finally:
            del self.stack[depth - 1:]
        # merge outcomes with equal results
        if len(rets) > 1:
            by = []
            for s, v in rets:
                s.mem[("ret", 0)] = v
                self.add_state(by, s)
            rets = []
            for s in by:
                v = s.mem.pop(("ret", 0))
                rets.append((s, v))
        return rets

    def exec_block(self, st, fid, body, bl, depth):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget")
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Budget("time budget")
        fn = self.stack[depth - 1][0]
        for stt, sp in bl[0]:
            k = stt[0]
            if k == "=":
                self.stack[depth - 1] = (fn, sp)
                self.wrplace(st, fid, stt[1], self.rvalue(st, fid, body, stt[2]))
            elif k == "dead":
                if not self.run_drops:
                    st.mem.pop((fid, stt[1]), None)
            elif k == "sd":
                v = self.rdplace(st, fid, stt[1])
                if v[0] == "adt":
                    self.wrplace(st, fid, stt[1], ("adt", v[1], stt[2], v[3]))
            elif k == "?":
                pass
        t, sp = bl[1], bl[2]
        self.stack[depth - 1] = (fn, sp)
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "ret":
            return [(st, "ret")]
        if k == "unreachable":
            return []
        if k == "switch":
            v = self.operand(st, fid, t[1])
            if istop(v):
                raise Undecided("branch on unmodelled value: %s" % (v[1],))
            out = []
            isbool = self.p.types[t[4]]["k"] == "bool"
            w, _ = self.width(t[4])
            cur = [st]
            for c, tgt in t[2]:
                nxt = []
                for s in cur:
                    if isbool:
                        f = v if c else Not(v)
                    else:
                        f = eq(v, int(c) & ((1 << w) - 1), w)
                    a, b = self.split(s, f)
                    out += [(x, tgt) for x in a]
                    nxt += b
                cur = nxt
            out += [(s, t[3]) for s in cur]
            return out
        if k == "drop":
            if self.run_drops:
                return [(s, t[2]) for s in self.drop_place(st, fid, body, t)]
            return [(st, t[2])]
        if k == "assert":
            v = self.operand(st, fid, t[1])
            if istop(v):
                raise Undecided("assertion on unmodelled value: %s" % (v[1],))
            f = v if t[2] else Not(v)
            a, b = self.split(st, f)
            for s in b:
                self.panic(s, t[3])
            return [(s, t[4]) for s in a]
        if k == "call":
            args = [self.operand(st, fid, a) for a in t[2]]
            for a, o in zip(args, t[2]):
                if o[0] == "m" and len(o[1]) == 1:
                    st.mem.pop((fid, o[1][0]), None) if not self.is_borrowed(body, o[1][0]) else None
            res = self.dispatch(st, t[1], args, t[5], t[6], fid)
            out = []
            for s, v in res:
                if t[4] is None:
                    continue
                self.wrplace(s, fid, t[3], v)
                out.append((s, t[4]))
            return out
        raise Undecided("terminator " + k)

    def is_borrowed(self, body, l):
        return False

    def drop_place(self, st, fid, body, t):
        return self.models.drop_place(self, st, fid, body, t)

    # ------------------------------------------------------------------ calls
    def dispatch(self, st, callee, args, argtys, destty, fid):
        if "op" in callee:
            f = self.operand(st, fid, callee["op"])
            return self.call_value(st, f, args)
        inst = callee["inst"]
        return self.call_named(st, inst, callee["n"], callee["args"], callee["krate"], args, argtys, destty)

    def call_named(self, st, inst, name, targs, krate, args, argtys=None, destty=None):
        self.calls_seen += 1
        info = self.p.insts[inst] if inst is not None else None
        if info is not None:
            if info["ctor"]:
                return [(st, self.ctor(info, destty, args))]
            if info["krate"] == self.p.d["crate"] and info["body"]:
                return self.call_inst(inst, self.spread(info, args), st)
        r = self.models.call(self, st, inst, info, name, targs, krate, args, argtys, destty)
        if r is not NotImplemented:
            return r
        if info is not None and info["body"]:
            return self.call_inst(inst, self.spread(info, args), st)
        nm = info["n"] if info else name
        self.notes.add(nm)
        return [(st, self.havoc(st, args, "unmodelled " + nm))]

    def havoc(self, st, args, why):
        for a in args:
            if isinstance(a, tuple) and a and a[0] == "&m":
                self.write(st, a, top(why))
        return top(why)

    def ctor(self, info, destty, args):
        adt, vi = info["ctor"]
        if destty is not None and self.p.types[destty]["k"] == "adt" and self.p.types[destty]["n"] == adt:
            return self.adt(destty, vi, tuple(args))
        tys = self.p.adtty.get(adt)
        if tys:
            return self.adt(tys[0], vi, tuple(args))
        return ("adt", adt, vi, tuple(args))

    def spread(self, info, args):
        """untuple the arguments of closure calls"""
        b = info["body"]
        n = info["n"]
        if b["argc"] != len(args) or "{closure" in n:
            if len(args) == 2 and isinstance(args[1], tuple) and args[1] and args[1][0] == "tup":
                if b["spread"] is None and b["argc"] == 1 + len(args[1][1]):
                    return [args[0]] + list(args[1][1])
        return args

    def newtmp(self, st, v):
        self.tmp += 1
        o = ("tmp", self.tmp)
        st.mem[o] = v
        return o

    def call_value(self, st, f, args):
        """call a function value -> [(state, result)]; callee state updates of by-value closures are lost"""
        return [(s, v) for s, v, _ in self.call_fn(st, f, args)]

    def call_fn(self, st, f, args):
        """-> [(state, result, updated callable)]"""
        n = 0
        orig = f
        while isinstance(f, tuple) and f[0] in ("&", "&m", "box") and n < 6:
            if f[0] == "&m":
                # call through a mutable reference: update in place
                inner = self.read(st, f[1], f[2])
                if inner[0] in ("&", "&m", "box", "fn", "fnp"):
                    f = inner
                    n += 1
                    continue
                out = []
                for s, v, nf in self.call_fn(st, inner, args):
                    if nf is not inner:
                        self.write(s, f, nf)
                    out.append((s, v, orig))
                return out
            f = self.deref(st, f)
            n += 1
        if f[0] == "dyn":
            f = f[2]
        if f[0] == "clo":
            t = self.p.types[f[1]]
            inst = t["inst"]
            info = self.p.insts[inst]
            if not info["body"]:
                raise Undecided("closure without body")
            selfty = self.p.types[info["body"]["locals"][1]] if info["body"]["argc"] else None
            if selfty is not None and selfty["k"] == "ref":
                if selfty["m"]:
                    o = self.newtmp(st, f)
                    out = []
                    for s, v in self.call_inst(inst, [("&m", o, ())] + list(args), st):
                        nf = s.mem.pop(o)
                        out.append((s, v, nf))
                    return out
                return [(s, v, f) for s, v in self.call_inst(inst, [("&", f)] + list(args), st)]
            return [(s, v, f) for s, v in self.call_inst(inst, [f] + list(args), st)]
        if f[0] == "fn":
            t = self.p.types[f[1]]
            if t.get("ctor"):
                adt, vi = t["ctor"]
                tys = self.p.adtty.get(adt)
                v = self.adt(tys[0], vi, tuple(args)) if tys else ("adt", adt, vi, tuple(args))
                return [(st, v, f)]
            return [(s, v, f) for s, v in self.call_named(st, t["inst"], t["n"], t["args"], t["krate"], list(args))]
        if f[0] == "fnp":
            info = self.p.insts[f[1]]
            return [(s, v, f) for s, v in self.call_named(st, f[1], info["n"], info["args"], info["krate"], list(args))]
        if f[0] == "native":
            return [(s, v, f) for s, v in f[1](self, st, list(args))]
        if istop(f):
            raise Undecided("call of unmodelled function value")
        raise Undecided("call of %s" % f[0])
