#!/usr/bin/env python3
"""try_seeded.py [id...]: run the check of each planted bug against a patched scratch copy."""
import json, os, subprocess, sys, tempfile, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    m = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="try.")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"])
        shutil.copytree(V, w + "/verif", ignore=shutil.ignore_patterns("build", ".git", "seeded"))
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w + "/repo", check=True)
        t0 = time.time()
        p = subprocess.run([sys.executable, w + "/verif/lib/check.py", m["property"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, VERIF_REPO=w + "/repo"))
        o = p.stdout.decode()
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        f = [l for l in o.splitlines() if l.startswith(("failed", "undecided"))]
        print("%-24s %s exit %d %5.1fs %s | %s" % (i, m["property"], p.returncode, time.time() - t0, "CAUGHT" + (" (nfif)" if "no-failing" in v[0] else "") if v else "MISSED", "; ".join(x[:90] for x in f[:2])), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
