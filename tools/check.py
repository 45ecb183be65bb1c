"""python3 tools/check.py <property> [--thorough]: decides one property of /repo's current tree from its type-checked program."""
import json
import os
import resource
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "analyser")]
sys.dont_write_bytecode = True
import extract                                                             # noqa: E402

TRUST = ["rustc's type checker and MIR construction (nightly in this sandbox)",
         "the analyser's models of std and of the third-party primitives (analyser/*m.py)"]


def known(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("known: property=%s key=" % pid):
                k, _, what = line.split(" key=", 1)[1].rstrip("\n").partition(" :: ")
                out[k] = what
    return out


def main():
    pid = sys.argv[1].upper()
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    import spec
    import kit as kitm
    import props
    fn, configs, rule = props.SPECS[pid]
    if tier == "thorough":
        configs = ("dev", "release")
    obl, functions, entries, paths, extra = [], set(), [], 0, {}
    limit = 700 if tier == "quick" else 3000

    def alarm(*a):
        raise kitm.OutOfTime()
    for config in configs:
        try:
            path = extract.dump(config)
        except extract.BuildFailed as e:
            print("ERROR: %s" % e)
            return 2
        try:
            prog = kitm.Program(path)
        finally:
            os.unlink(path)
        k = kitm.Kit(prog)
        c = spec.Check(pid, k)
        c.tier, c.config = tier, config
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(max(30, int(limit - (time.time() - t0))))
        try:
            fn(c)
        except kitm.OutOfTime:
            c.unsure("time", "the analysis did not finish")
        except kitm.Missing as e:
            (c.bad if e.gone else c.unsure)("anchor", "public operation the property is about: %s" % e)
        except (spec.Unsure, kitm.Undecided) as e:
            c.unsure("analysis", str(e))
        except Exception as e:
            c.unsure("analysis", kitm.crash(e))
        except MemoryError:
            c.unsure("memory", "the analysis did not fit in memory")
        finally:
            signal.alarm(0)
        pre = "" if len(configs) == 1 else config + ": "
        obl += [(s, pre + key, d) for s, key, d in c.obl]
        functions |= k.functions
        entries += [(pre + e[1],) + e for e in c.entries]
        paths += k.paths
        extra.update(c.extra)
    bad = [o for o in obl if o[0] == "violated"]
    uns = [o for o in obl if o[0] == "undecided"]
    good = [o for o in obl if o[0] == "proved"]
    kn = known(pid)
    new, old = [], []
    for o in bad:
        (old if o[1].split(": ")[-1] in kn or o[1] in kn else new).append(o)
    for o in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn.get(o[1]) or kn.get(o[1].split(": ")[-1])))
    for o in uns[:20]:
        print("UNDECIDED: %s: %s" % (o[1], o[2][:400]))
    own = sorted(names(prog, functions))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": rule,
            "obligations": len(obl), "discharged": len(good), "undecided": len(uns),
            "configurations": list(configs),
            "entry_points": len({e[1] for e in entries}), "analysed_runs": len(entries), "paths": paths,
            "functions": len(functions), "functions_of_kms": own,
            "undecided_samples": ["%s: %s" % (o[1], o[2][:300]) for o in uns[:10]],
            "samples": ["%s: %s" % (o[1], o[2][:300]) for o in good[:: max(1, len(good) // 8)][:8]],
            "trusted_base": TRUST,
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    ev["coverage"].update(extra)
    if not obl:
        ev["coverage"]["explanation"] += " (nothing was decided on this run)"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print("%s: %d obligations, %d hold, %d violated, %d undecided, %.1f s" % (pid, len(obl), len(good), len(bad), len(uns), time.time() - t0))
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for s, key, d in new:
                f.write("%s\n    %s\n" % (key, d))
        for s, key, d in new[:12]:
            print("  %s: %s" % (key, d[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


ASSUME = ["sha2, hmac, pbkdf2, ripemd, bs58, libsecp256k1, unicode-normalization, encoding, rand and hex compute what their documentation says"]


def names(prog, functions):
    out = set()
    for i in functions:
        x = prog.insts[i] if isinstance(i, int) else None
        if x is None:
            out.add(str(i))
        elif x["krate"] == prog.d["crate"]:
            out.add(x["n"])
    return [n for n in out if n.startswith(prog.d["crate"]) or n.startswith("<" + prog.d["crate"])]


if __name__ == "__main__":
    sys.exit(main())
