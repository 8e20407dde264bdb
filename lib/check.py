#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree."""
import importlib, threading, traceback
from common import *
from search import Search
sys.path.insert(0, os.path.join(VERIF, "props"))

QUICK_BUDGET, THOROUGH_BUDGET = 700, 3000


def decide(pid):
    t0 = time.time()
    replay = os.path.join(BUILD, "replay", pid + ".txt")
    if os.path.exists(replay):
        os.unlink(replay)
    from registry import PROPS
    spec = PROPS[pid]
    budget = QUICK_BUDGET if TIER == "quick" else THOROUGH_BUDGET
    deadline = t0 + budget
    units = spec["units"]() if callable(spec["units"]) else list(spec["units"])
    if TIER == "thorough" and "thorough_units" in spec:
        units = units + list(spec["thorough_units"])
    searches = spec.get("search", [])

    sres, results = [], []

    def safe(u):
        try:
            if CANCEL.is_set():
                r = Result(u)
                r.reason = "not run: a failing input is already found"
                return r
            return u.prove(deadline)
        except Exception:
            r = Result(u)
            r.reason = "internal: " + traceback.format_exc()[-1500:]
            return r

    def safe_search(s, secs, seed):
        try:
            return s.go(pid, secs, seed)
        except Exception:
            return {"driver": s.file, "status": "error", "reason": traceback.format_exc()[-1500:]}

    for u in units:
        u.prop = pid
    units.sort(key=lambda u: -getattr(u, "weight", 1))
    with ThreadPoolExecutor(max_workers=JOBS) as ex:
        sf = [ex.submit(safe_search, s, s.seconds if TIER == "quick" else s.thorough, SEED) for s in searches]
        uf = [ex.submit(safe, u) for u in units]
        for f in as_completed(sf + uf):
            (sres if f in sf else results).append(f.result())
            if f in sf and f.result()["status"] == "violation" and TIER == "quick":
                CANCEL.set()
    CANCEL.clear()
    bad = [r for r in results if r.status == "failed"]
    und = [r for r in results if r.status == "undecided"]
    hit = next((s for s in sres if s["status"] == "violation"), None)
    if hit is None and (bad or und) and searches:
        # an obligation is not discharged: look harder for a failing input
        with ThreadPoolExecutor(max_workers=JOBS) as ex:
            fs = [ex.submit(safe_search, s, max(20, 3 * s.seconds), SEED + 7919) for s in searches]
            extra = [f.result() for f in fs]
        sres += extra
        hit = next((s for s in extra if s["status"] == "violation"), None)

    os.makedirs(os.path.dirname(replay), exist_ok=True)
    violations = 0
    lines = []
    if hit is not None:
        violations = 1
        with open(replay, "w") as f:
            f.write("property %s violated: failing input on the real code\n\n%s\n\n" % (pid, hit["reason"]))
            f.write("replay: %s\n(reproduces in isolation: %s)\n\n%s\n" % (hit.get("replay_cmd"), hit.get("replayed"), hit.get("replay_output", "")))
            f.write("\n--- driver output ---\n%s\n%s\n" % (hit.get("out", "")[-3000:], hit.get("err", "")[-3000:]))
            for r in bad:
                f.write("\nundischarged in unit %s (%s):\n" % (r.unit.name, r.backend))
                for n, d in r.failed:
                    f.write("  %s  %s\n" % (n, d))
        lines.append("VIOLATION property=%s replay=%s" % (pid, replay))
    elif bad:
        violations = 1
        with open(replay, "w") as f:
            f.write("property %s: obligations the verifier does not discharge on the current source\n" % pid)
            f.write("(they are discharged on the tree this check was written for; the failing-input search found no input)\n")
            for r in bad:
                f.write("\nunit %s, functions under contract: %s, back end %s\n" % (r.unit.name, ", ".join(r.unit.functions), r.backend))
                for n, d in r.failed:
                    f.write("  FAILED OBLIGATION %s  %s\n" % (n, d))
                tu = getattr(r, "traceunit", r.unit)
                if hasattr(tu, "trace") and time.time() < deadline:
                    f.write("\nverifier counterexample:\n%s\n" % tu.trace(r.failed[0][0].split(": ")[0], min(120, deadline - time.time()))[-12000:])
                f.write("\nverifier output (tail):\n%s\n" % r.output[-4000:])
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))

    nob = sum(r.obligations for r in results)
    ndis = sum(r.discharged for r in results)
    complete = bool(results) and all(r.status == "proved" for r in results)
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": spec.get("checker_cmd", "python3 lib/check.py %s" % pid),
        "trusted_base": spec.get("trusted", []),
        "every_obligation_discharged": complete and nob == ndis,
        "functions_under_contract": sorted({f for r in results for f in r.unit.functions}),
        "functions_proved": sorted({f for r in results if r.status == "proved" and not r.bounded for f in r.unit.functions}
                                   - {f for r in results if r.status != "proved" for f in r.unit.functions}),
        "bounded_not_counted_as_proved": ["%s: %s" % (r.unit.name, r.bounded) for r in results if r.bounded],
        "undecided_units": [{"unit": r.unit.name, "reason": r.reason[:600]} for r in und],
        "back_ends": sorted({r.backend for r in results if r.backend}),
        "solver_seconds": round(sum(r.seconds for r in results), 2),
        "reachability_covers_reached": sum(r.covers for r in results),
        "units": [r.as_json() for r in sorted(results, key=lambda r: r.unit.name)],
        "failing_input_search": {
            "note": "supplementary; native runs of the same code against the executable contract, used to find and replay failing inputs",
            "evaluations": sum(s.get("cases", 0) for s in sres),
            "distinct_nontrivial": sum(s.get("nontrivial", 0) for s in sres),
            "drivers": [{k: s[k] for k in ("driver", "status", "seconds", "cases", "tests", "reason") if k in s} for s in sres],
            "samples": [x for s in sres for x in s.get("samples", [])][:6],
        },
    }
    if spec.get("unverified"):
        cov["surroundings_not_verified"] = spec["unverified"]
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": spec.get("level", "proof"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for s in sres:
        if s["status"] == "error":
            print("note: failing-input search %s: %s" % (s["driver"], s["reason"][:1500]))
    for r in sorted(results, key=lambda r: r.unit.name):
        print("%-9s %-34s %4d/%-4d obligations %6.1fs %s" % (r.status, r.unit.name, r.discharged, r.obligations, r.seconds,
                                                              (r.failed[0][0] if r.failed else r.reason.strip().splitlines()[-1] if r.reason else "")[:150]))
    print("%s: %d of %d obligations discharged in %d units, %d native cases, %.1fs" %
          (pid, ndis, nob, len(results), cov["failing_input_search"]["evaluations"], time.time() - t0))
    if not violations:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                m = re.match(r"KNOWN-FINDING: property=%s\b.*" % pid, l)
                if m:
                    print(l.rstrip())
    for l in lines:
        print(l)
    return 1 if violations else 0


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(decide(sys.argv[1]))
