"""Private-key comparison (C49) and wiping (C43)."""
import re

from spec import *
from p4 import leaves

EARLY = re.compile(r"(^|[ :<])(PartialEq|PartialOrd|Ord)(<.*>)?::[a-z_]+$|::(starts_with|ends_with|contains|eq_by|is_prefix_of|memcmp|strip_prefix|strip_suffix|binary_search\w*)$")


class Timed(Interp):
    """an interpreter that reports comparisons whose duration depends on what they compare"""

    def call_named(self, st, inst, name, targs, krate, args, argtys=None, destty=None):
        info = self.p.insts[inst] if inst is not None else None
        own = info is not None and info["krate"] == self.p.d["crate"] and info["body"]
        if not own and EARLY.search((info or {}).get("n", name) if info else name) and krate != "subtle":
            vals = [self.full(st, a) for a in args[:2]]
            if not all(type(strip(v)) in (int, Term, bool) for v in vals):
                self.early.append((name, vals, self.where()))
        return super().call_named(st, inst, name, targs, krate, args, argtys, destty)


def c49(c):
    k = c.k
    a, b = k.xprv("a"), k.xprv("b")
    secret = re.compile(r"^[ab]\.(sk|cc)$")

    def sec(v):
        return {(x[0], x[1]) for x in byte_leaves(v) if secret.search(x[0])}
    roots = [r for r in k.p.roots if r["self"] and last(r["self"].lstrip("&")) == "ExtendedPrivateKey" and r["name"] in ("ct_eq", "ct_ne", "eq", "ne") and r["insts"]]
    if not [r for r in roots if r["name"] == "ct_eq"]:
        c.bad("ct_eq", "extended private keys have no constant-time comparison any more")
    for r in roots:
        for same_key in (False, True):
            I = Timed(k.p, k.interp().models)
            I.branch_log, I.early = [], []
            y = a if same_key else b
            res = k.run(r["insts"][0], [ref(a), ref(y)], I=I)
            label = "%s (%s)" % (r["n"], "a key with itself" if same_key else "any two keys")
            c.entries.append((res.what, label, len(res.outs or ()), len(I.panics)))
            bad = []
            full = {("%s.%s" % (x, w), i) for x in ("a" if same_key else "ab") for w in ("sk", "cc") for i in range(32)}
            for f, where in I.branch_log:
                lv = sec(f)
                if lv and not full <= lv:
                    bad.append("branch on secret bytes %s before the comparison is complete, at %s" % (names_of(lv), where))
            for n, vals, where in I.early:
                lv = sec(vals)
                if lv:
                    bad.append("%s stops at the first difference of secret bytes %s, at %s" % (last(n), names_of(lv), where))
            if bad:
                for x in bad[:5]:
                    c.bad(label, x)
            elif res.outs is None:
                c.unsure(label, res.why)
            else:
                t = [has_top(I.full(s, v)) for s, v in res.outs if has_top(I.full(s, v))]
                if t:
                    c.unsure(label, "result not known: %s" % (t[0],))
                else:
                    c.ok(label, "%d branches, none on secret bytes; no early-exit comparison of secret bytes" % len(I.branch_log))


def names_of(lv):
    return ", ".join(sorted({x[0] for x in lv}))


def byte_leaves(v):
    """(variable, byte index) pairs a value depends on"""
    out, seen, todo = set(), set(), [v]
    while todo:
        x = todo.pop()
        if type(x) is Term:
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "byte" and type(x.args[0]) is Term and x.args[0].op == "var" and type(x.args[1]) is int:
                out.add((x.args[0].args[0], x.args[1]))
            elif x.op == "var":
                out.add((x.args[0], None))
            else:
                todo += x.args
        elif isinstance(x, (tuple, list)):
            todo += x
    return out
