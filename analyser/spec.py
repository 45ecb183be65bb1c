"""Comparison of the outcomes of an analysed function with its specification.

A specification of a function is a list of cases (formula over the inputs, expectation).  For every outcome
the code analysis found (a guard over the inputs and the value returned under it) and every case whose
formula is compatible with the guard, the expectation judges the value.  A mismatch counts as a violation
only when nothing on the way was approximated: the guard has no SOFT atom and neither side contains an
unmodelled value; otherwise the obligation is recorded as undecided.
"""
from kit import *


class Fail(Exception):
    """a definite difference"""


class Unsure(Exception):
    """not decided"""


def text_of(v, n=200):
    s = show_val(v)
    return s if len(s) <= n else s[:n] + ".."


def show_val(v, d=0):
    if type(v) is Term:
        return show(v)
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "arr":
            e = v[1]
            return "[" + ",".join(show_val(x, d + 1) for x in e[:6]) + (",..#%d" % len(e) if len(e) > 6 else "") + "]"
        if len(v) == 2 and v[0] == "str":
            return "str(" + "+".join(repr(x) if isinstance(x, str) else show(x) for x in v[1][:6]) + (".." if len(v[1]) > 6 else "") + ")"
        if len(v) == 2 and v[0] in ("&", "box"):
            return show_val(v[1], d)
        if v and v[0] == "adt":
            nm = v[1] if isinstance(v[1], str) else "#%d" % v[1]
            if nm == "core::result::Result":
                return ("Ok(" if v[2] == 0 else "Err(") + show_val(v[3][0], d + 1) + ")"
            if nm == "core::option::Option":
                return "None" if v[2] == 0 else "Some(" + show_val(v[3][0], d + 1) + ")"
            return last(nm) + ("/%d" % v[2]) + "{" + ",".join(show_val(x, d + 1) for x in v[3]) + "}"
        return "(" + ",".join(show_val(x, d + 1) for x in v[:8]) + ")"
    return repr(v)


def strip(v):
    while isinstance(v, tuple) and len(v) == 2 and v[0] in ("&", "box"):
        v = v[1]
    # transparent wrappers
    while isinstance(v, tuple) and v and v[0] == "adt" and isinstance(v[1], str) and last(v[1]) in ("Zeroizing",) and len(v[3]) == 1:
        v = strip(v[3][0])
    return v


def is_formula(x):
    return type(x) is Term and x.op in ("b", "and", "or", "not", "p", "in", "eqs", "true", "false") or x is TRUE or x is FALSE


def iff(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return Not(b)
    if b is FALSE:
        return Not(a)
    return Or(And(a, b), And(Not(a), Not(b)))


def soft_atoms(f, acc=None):
    acc = set() if acc is None else acc
    if type(f) is Term:
        if f.op == "p":
            if f.args[0] in SOFT:
                acc.add(f.args[0])
        elif f.op in ("not", "and", "or"):
            for x in f.args:
                soft_atoms(x, acc)
    return acc


def need(g, f, what, got=None, want=None):
    """f must be valid under g"""
    bad = g.assume(f, False) if g.eval(f) is not True else []
    if not bad:
        return
    bad = [h for h in bad if h.feasible()]
    if not bad:
        return
    for h in bad:
        if not h.soft():
            raise Fail(what)
    raise Unsure("%s (depends on %s)" % (what, ",".join(sorted(bad[0].soft()))))


def same(g, got, want, what="value"):
    """raise Fail/Unsure unless got equals want under every input of g"""
    got, want = strip(got), strip(want)
    if got == want:
        return
    t = has_top(got)
    if t:
        raise Unsure("%s: %s" % (what, t))
    if isinstance(got, bool):
        got = TRUE if got else FALSE
    if isinstance(want, bool):
        want = TRUE if want else FALSE
    if isinstance(want, tuple) and want and want[0] == "adt":
        if not (isinstance(got, tuple) and got and got[0] == "adt" and len(got) == 4):
            raise Unsure("%s: not comparable: %s" % (what, text_of(got)))
        if got[1] != want[1] and not same_ty(got[1], want[1]):
            raise Unsure("%s: types differ: %s and %s" % (what, got[1], want[1]))
        if got[2] != want[2]:
            raise Fail("%s: %s instead of %s" % (what, text_of(got), text_of(want)))
        for i, (x, y) in enumerate(zip(got[3], want[3])):
            same(g, x, y, what + ".%d" % i)
        return
    if is_formula(want) or is_formula(got):
        if not (is_formula(want) and is_formula(got)):
            raise Unsure("%s: not comparable: %s" % (what, text_of(got)))
        need(g, iff(got, want), "%s: %s instead of %s" % (what, text_of(got), text_of(want)))
        return
    if type(want) in (int, Term):
        if type(got) not in (int, Term):
            raise Unsure("%s: not comparable: %s" % (what, text_of(got)))
        w = max(w_of(got), w_of(want)) if type(got) is Term or type(want) is Term else 64
        if type(got) is Term and not got.w or type(want) is Term and not want.w:
            if got is not want:
                raise Fail("%s: %s instead of %s" % (what, text_of(got), text_of(want)))
            return
        f = eq(got, want, w)
        need(g, f, "%s: %s instead of %s" % (what, text_of(got), text_of(want)))
        return
    if is_str(want) or is_arr(want):
        if is_arr(got):
            a = got[1]
        elif is_str(got):
            a = None
        else:
            raise Unsure("%s: not comparable: %s" % (what, text_of(got)))
        if is_str(want) and is_str(got):
            f = str_eq(got[1], want[1])
        else:
            a = got[1] if is_arr(got) else str_bytes(got[1])
            b = want[1] if is_arr(want) else str_bytes(want[1])
            plain = all(type(x) in (int, Term) for x in a) and all(type(x) in (int, Term) for x in b)
            if not plain:
                if len(a) != len(b):
                    raise Fail("%s: %d elements instead of %d" % (what, len(a), len(b)))
                for i, (x, y) in enumerate(zip(a, b)):
                    same(g, x, y, "%s[%d]" % (what, i))
                return
            a, b = expand(g, a), expand(g, b)
            f = els_eq(a, b)
        if g.eval(f) is True:
            return
        need(g, hard(f), "%s: %s instead of %s" % (what, text_of(got), text_of(want)))
        return
    if isinstance(want, tuple) and want and want[0] == "tup":
        if not (isinstance(got, tuple) and got and got[0] == "tup" and len(got[1]) == len(want[1])):
            raise Unsure("%s: not comparable: %s" % (what, text_of(got)))
        for i, (x, y) in enumerate(zip(got[1], want[1])):
            same(g, x, y, what + ".%d" % i)
        return
    raise Unsure("%s: not comparable: %s with %s" % (what, text_of(got), text_of(want)))


def hard(f):
    """sequences of unknown-length pieces that differ as terms differ for some input: pieces are free"""
    if type(f) is Term and f.op == "p" and f.args[0] == "seqeq":
        return P("streqs", *f.args[1:])
    if type(f) is Term and f.op in ("and", "or", "not"):
        a = [hard(x) for x in f.args]
        return Not(a[0]) if f.op == "not" else And(*a) if f.op == "and" else Or(*a)
    return f


def same_ty(a, b):
    return isinstance(a, str) and isinstance(b, str) and last(a) == last(b)


# ------------------------------------------------------------------ expectations
def ret(want, what="result"):
    return lambda c, g, s, v: same(g, v, want, what)


def is_err(c, g, s, v):
    u = unwrap(v)
    if u is None:
        raise Unsure("result is " + text_of(v))
    if u[0] not in ("err", "none"):
        raise Fail("returns %s where an error is required" % text_of(v, 120))


def okv(f):
    """expectation on the payload of Ok/Some"""
    def e(c, g, s, v):
        u = unwrap(v)
        if u is None:
            raise Unsure("result is " + text_of(v))
        if u[0] not in ("ok", "some"):
            raise Fail("fails (%s) where success is required" % text_of(v, 120))
        if f is not None:
            f(c, g, s, u[1])
    return e


def is_ok(c, g, s, v):
    okv(None)(c, g, s, v)


class Check:
    """collects the obligations of one property"""

    def __init__(self, pid, kit):
        self.pid, self.k = pid, kit
        self.obl = []          # (status, key, detail)
        self.entries = []
        self.extra = {}
        self.tier, self.config = "quick", "dev"

    def add(self, status, key, detail=""):
        self.obl.append((status, key, detail))

    def ok(self, key, detail=""):
        self.add("proved", key, detail)

    def bad(self, key, detail):
        self.add("violated", key, detail)

    def unsure(self, key, detail):
        self.add("undecided", key, detail)

    def span(self, inst):
        x = self.k.p.insts[inst].get("span")
        return x if isinstance(x, str) else str(x)

    def decide(self, label, r, cases, panics=True, post=None):
        """judge an analysed entry point"""
        self.entries.append((r.what, label, len(r.outs or ()), len(r.I.panics) if r.I else 0))
        if r.partial is None:
            self.unsure(label, "%s: %s" % (r.what, r.why))
            return
        here = "%s (%s)" % (r.what, self.span(r.inst)) if r.inst is not None else r.what
        bad, uns, n = {}, {}, 0
        for s, v in r.partial:
            v = r.I.full(s, v)
            for ci, (f, exp) in enumerate(cases):
                for g in s.g.assume(f):
                    if not g.feasible():
                        continue
                    n += 1
                    try:
                        s2 = State(g, s.mem)
                        exp(self, g, s2, v)
                    except Fail as e:
                        if g.soft():
                            uns.setdefault(str(e), g)
                        else:
                            bad.setdefault(str(e), g)
                    except Unsure as e:
                        uns.setdefault(str(e), g)
                    except Undecided as e:
                        uns.setdefault("reading the result: %s" % e, g)
        for g0, why, where in r.I.lost:
            for f, exp in cases:
                for g in g0.assume(f):
                    if g.feasible():
                        uns.setdefault("not followed: %s [%s]" % (why, place(where)), g)
        if panics:
            for o in r.panics:
                for f, exp in cases:
                    for g in o.g.assume(f):
                        if not g.feasible():
                            continue
                        m = "panics: %s at %s" % (o.msg, o.where)
                        (uns if g.soft() else bad).setdefault(m, g)
        for m, g in bad.items():
            self.bad(label, "%s: %s when %s" % (here, m, clip(g.show())))
        for m, g in uns.items():
            self.unsure(label, "%s: %s when %s" % (here, m, clip(g.show())))
        if not bad and not uns:
            self.ok(label, "%s: %d outcome/case pairs" % (here, n))


def clip(s, n=700):
    return s if len(s) <= n else s[:n] + ".."
