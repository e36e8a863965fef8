#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's tree.

Builds the library from the working tree with the hooks on, explores the
property's space exhaustively, compares violations with known_findings.txt,
writes evidence/<property>.json, and prints KNOWN-FINDING / VIOLATION lines.
Exit status: 0 holds on everything explored, 1 violation, 2 no answer."""
import json
import os
import re
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
import buildlib  # noqa: E402
from registry import CHECKS  # noqa: E402


def known(prop):
    """{(case, kind): text} of the listed findings of this property."""
    res = {}
    for line in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) case=(\S+) kind=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            res[(m.group(2), m.group(3))] = m.group(4)
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = CHECKS[prop]
    t0 = time.time()
    kn = known(prop)
    total = {"explored": 0, "cases": 0, "distinct": 0, "counters": {}, "samples": [], "complete": True,
             "bounds": [], "parts": []}
    new, seen_known = [], {}
    for part in spec["parts"]:
        if part.get("tiers") and tier not in part["tiers"]:
            continue
        try:
            binp = buildlib.build(part["variant"], part["name"], part["sources"], part.get("link", ()))
        except buildlib.BuildError as e:
            print("build failed: %s" % e)
            return 2
        with tempfile.TemporaryDirectory(prefix="plutochk.") as td:
            out, kf = os.path.join(td, "out.json"), os.path.join(td, "known")
            open(kf, "w").write("".join("%s\t%s\n" % k for k in kn))
            cmd = [binp, "--prop", part.get("prop", prop), "--tier", tier, "--out", out, "--known", kf]
            if tier == "quick":
                cmd += ["--budget", str(part.get("budget", 600))]
            env = dict(os.environ)
            env.update(part.get("env", {}))
            p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                               errors="replace")
            if p.returncode != 0 or not os.path.exists(out):
                print("explorer ended with %d: %s" % (p.returncode, p.stderr[-2000:]))
                return 2
            r = json.load(open(out))
        total["explored"] += r["explored"]
        total["cases"] += r["cases"]
        total["distinct"] += r["distinct_outcomes"]
        total["complete"] &= r["complete"]
        total["samples"] += r["samples"]
        if r["bounds"] and r["bounds"] not in total["bounds"]:
            total["bounds"].append(r["bounds"])
        for k, n in r["counters"].items():
            total["counters"][k] = total["counters"].get(k, 0) + n
        total["parts"].append({"binary": part["name"], "variant": part["variant"], "cases": r["cases"],
                               "explored": r["explored"], "wall_s": round(r["wall_s"], 1),
                               "retried_alone": r["retried_alone"], "unreproduced": r["unreproduced"]})
        for v in r["violations"]:
            key = (v["case"], v["kind"])
            if part.get("kinds") and v["kind"] not in part["kinds"]:
                continue  # (another property's business)
            if key in kn:
                seen_known[key] = kn[key]
            elif v["reproduced"]:
                v["replay_cmd"] = "%s --prop %s --tier %s --case '%s'" % (binp, part.get("prop", prop), tier, v["case"])
                new.append(v)
            else:
                print("not reproduced, ignored: %s %s" % key)
    for (case, kind), text in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s case=%s kind=%s %s" % (prop, case, kind, text))
    ctr = total["counters"]
    cov = {
        "states": sum(ctr.get(k, 0) for k in spec["states"]),
        "states_are": " + ".join(spec["states"]),
        "transitions": sum(ctr.get(k, 0) for k in spec["transitions"]),
        "transitions_are": " + ".join(spec["transitions"]),
        "traces_validated_against_impl": sum(ctr.get(k, 0) for k in spec["traces"]),
        "traces_are": " + ".join(spec["traces"]),
        "cases": total["cases"], "cases_explored": total["explored"],
        "distinct_outcomes": total["distinct"], "counters": ctr,
        "exhaustive": bool(total["complete"]), "bounds": "; ".join(total["bounds"]) or spec["bounds"],
        "known_findings_seen": len(seen_known), "parts": total["parts"],
        "samples": total["samples"][:12] or ["(none recorded)"],
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking", "coverage": cov, "assumptions": spec["assumptions"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        for n, v in enumerate(new[:5]):
            rp = os.path.join(V, "replays", "%s-%d.txt" % (prop, n))
            with open(rp, "w") as f:
                f.write("case %s\nkind %s\n%s\n\n%s\n\nreproduced %s\nrerun: %s\n" %
                        (v["case"], v["kind"], v["detail"], v["input"], v["how"], v["replay_cmd"]))
            print("%s [%s] %s" % (v["case"], v["kind"], v["detail"][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s %s: held on %d of %d cases, %d states, %d transitions, %.0f s" %
          (prop, tier, total["explored"], total["cases"], cov["states"], cov["transitions"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
