#!/usr/bin/env python3
"""plant.py DEFS.py [id...]: turn planted-bug definitions into seeded/<id>/ after confirming them.

DEFS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)...], srcs=[...], demo=C text, needs, what, cflags)].
Confirms in a scratch copy of /repo: the patch builds, every stable test passes, the demo
passes without and fails with the patch, and some removed line is an original one."""
import importlib.util, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/sh
# run with cwd = the source tree, after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -f "$t/demo"; rmdir "$t"' EXIT
gcc -g -O1 %s -I. "$d/demo.c" %s -o "$t/demo" -lm || exit 1
ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 UBSAN_OPTIONS=halt_on_error=1 timeout 120 "$t/demo"
"""

def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode("utf-8", "replace")

def plant(b):
    r = plant_(b)
    if ": ok" not in r:
        shutil.rmtree(os.path.join(V, "seeded", b["id"]), ignore_errors=True)
    return r

def plant_(b):
    w = tempfile.mkdtemp(prefix="plant.")
    r = os.path.join(w, "repo")
    try:
        sh(["cp", "-a", "/repo", r])
        sh(["git", "checkout", "-q", "--", "."], r)
        shutil.rmtree(os.path.join(r, "_build"), ignore_errors=True)
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            t = open(p, encoding="utf-8").read()
            if t.count(old) != 1:
                return "%s: %d occurrences of %r in %s" % (b["id"], t.count(old), old, f)
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        _, diff = sh(["git", "diff"], r)
        base = subprocess.run("git -C /repo log --format=%H --grep='^fix:' --invert-grep -1", shell=True, stdout=subprocess.PIPE).stdout.decode().strip()
        # removed lines must be original
        orig = False
        for f in {e[0] for e in b["edits"]}:
            _, bl = sh(["git", "blame", "-l", "-s", "HEAD", "--", f], r)
            fixes = set(subprocess.run("git -C /repo log --format=%H --grep='^fix:'", shell=True, stdout=subprocess.PIPE).stdout.decode().split())
            blame = [l.split()[0] for l in bl.splitlines()]
            n = 0
            for l in sh(["git", "diff", "-U0", "--", f], r)[1].splitlines():
                if l.startswith("@@"):
                    n = int(l.split()[1][1:].split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    if blame[n - 1] not in fixes:
                        orig = True
                    else:
                        return "%s: line %d of %s is from a fix commit" % (b["id"], n, f)
                    n += 1
        if not orig:
            return "%s: no original line removed" % b["id"]
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.c"), "w").write(b["demo"])
        cf = b.get("cflags", "-fsanitize=address,undefined -fno-sanitize-recover=undefined")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (cf, " ".join(b.get("srcs", []))))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for inc, txt in b.get("files", {}).items():
            open(os.path.join(d, inc), "w").write(txt)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc0, o0 = sh(["sh", os.path.join(d, "demo.sh")], "/repo")
        rc1, o1 = sh(["sh", os.path.join(d, "demo.sh")], r)
        if rc0 != 0:
            return "%s: demo fails on the unchanged tree\n%s" % (b["id"], o0[-1500:])
        if rc1 == 0:
            return "%s: demo passes with the patch\n%s" % (b["id"], o1[-500:])
        for s in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + s).read().replace("/opt/vp/build.sh", w + "/build.sh").replace("/repo", r)
            open(os.path.join(w, s), "w").write(t)
        rc, o = sh(["bash", os.path.join(w, "test.sh"), os.path.join(w, "out.json")])
        if not os.path.exists(os.path.join(w, "out.json")): return b["id"] + ": " + o[-800:]
        res = json.load(open(os.path.join(w, "out.json")))
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base if isinstance(base, list) else base["stable"]
        missing = [x for x in base if x not in res["passed"]]
        if missing:
            return "%s: tests fail: %s" % (b["id"], missing[:5])
        return "%s: ok (%s)" % (b["id"], o1.strip().splitlines()[-1][:150] if o1.strip() else "")
    finally:
        shutil.rmtree(w, ignore_errors=True)

spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ids = sys.argv[2:]
with ThreadPoolExecutor(4) as ex:
    for s in ex.map(plant, [b for b in m.BUGS if not ids or b["id"] in ids]):
        print(s)
