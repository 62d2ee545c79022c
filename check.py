#!/usr/bin/env python3
"""check.py <property> [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)"""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vb, pbt, checks


def main():
    pid = sys.argv[1]
    fn, level, assumptions = checks.CHECKS[pid]
    r = pbt.Runner(pid)
    try:
        stages = fn(r)
    except vb.BuildError as e:
        # internal functions may be renamed or get other arguments: then decide through the public API.  A tree whose
        # library itself does not build raises again here.
        checks.API_ONLY = True
        stages = fn(r)
        note = "a harness for internal functions does not build against this tree, deciding through the public API: %s" % str(e)[-600:]
        print("note: " + note)
        r.notes.append(note)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        d = json.load(open(sys.argv[3]))
        for st in stages or []:
            if st and st.name == d.get("stage"):
                if d.get("history"):
                    pbt.SEED = d["history"]["seed"]
                    res, f = r.run_shard(st, d["history"]["shard"], nmax=d["history"]["max"])
                    print("reproduced: %s" % f.msg if f else "not reproduced")
                    return 1 if f else 0
                rc, out, err = r.replay(st, d["choices"])
                print(out + err)
                return 1 if rc else 0
        print("stage %s not found; the replay file holds: %s" % (d.get("stage"), d.get("message")))
        return 1
    ok = r.run_stages(stages or [])
    rc = r.finish(level, assumptions, known=getattr(r, "known", None))
    vb.prune()
    for s in r.stages:
        print("%-28s %7d cases, %7d distinct non-trivial, %6.1f s" % (s["stage"], s["evaluations"], s["distinct_nontrivial"], s["wall_s"]))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vb.BuildError as e:
        print("build error: %s" % e, file=sys.stderr)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
