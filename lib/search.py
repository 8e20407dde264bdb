"""Failing-input search: native execution of the real code against the
executable contract (see search/search.h)."""
import os, re, time, shutil
from common import *

SAN = {
    "gcc": ["gcc", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute",
            "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-w"],
    "clang": ["clang", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute",
              "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-w"],
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77",
           UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=77")


class Search:
    def __init__(self, file, tests=(), seconds=8, cc="gcc", flags=(), thorough=120, variant="", optional=()):
        self.file, self.tests, self.seconds, self.cc = file, list(tests), seconds, cc
        self.flags, self.thorough, self.variant = list(flags), thorough, variant
        self.optional = list(optional)     # defines that need names internal to /repo; dropped if it does not build with them

    def name(self):
        return os.path.splitext(self.file)[0] + self.variant

    def build(self, pid):
        d = os.path.join(BUILD, "search")
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, "%s_%s" % (pid, self.name()))
        src = os.path.join(VERIF, "search", self.file)
        tries = [self.flags + self.optional] + ([self.flags] if self.optional else [])
        for fl in tries:
            cmd = SAN[self.cc] + fl + ["-I" + REPO, "-I" + os.path.join(VERIF, "search"), src, "-o", exe, "-lm"]
            rc, out, err, _ = run(cmd, 300)
            if rc == 0:
                break
        return (exe, None) if rc == 0 else (None, (out + err)[-3000:])

    def go(self, pid, seconds, seed):
        """-> dict(status='clean'|'violation'|'error', ...)"""
        exe, err = self.build(pid)
        if exe is None:
            return {"driver": self.file, "status": "error", "reason": "does not build: " + err}
        tape = exe + ".tape"
        cmd = [exe, "--seconds", str(seconds), "--seed", str(seed), "--tape", tape, "--property", pid] + self.tests
        rc, out, err, secs = run(cmd, seconds * 4 + 60, env=ENV)
        res = {"driver": self.file + self.variant, "seconds": round(secs, 2), "status": "clean", "out": out, "err": err}
        m = re.search(r"CASES (\d+) NONTRIVIAL (\d+)", out)
        if m:
            res["cases"], res["nontrivial"] = int(m.group(1)), int(m.group(2))
        res["samples"] = re.findall(r"^SAMPLE (.*)$", out, re.M)
        res["tests"] = re.findall(r"^TEST (.*)$", out, re.M)
        if rc is None and CANCEL.is_set():
            res["status"], res["reason"] = "stopped", "another search has found a failing input"
            return res
        if rc is None:
            res["status"], res["reason"] = "violation", "the case on the tape does not terminate"
        elif rc == 0 and m:
            return res
        elif rc in (3, 77) or rc < 0 or "ERROR: AddressSanitizer" in err or "runtime error" in err:
            res["status"] = "violation"
            f = re.search(r"FAILING-INPUT.*(?:\n  case:.*)?", out)
            res["reason"] = f.group(0) if f else (re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*)", err) or [None, "killed by signal %s" % rc])[1]
        else:
            res["status"], res["reason"] = "error", "exit %s: %s" % (rc, (out + err)[-800:])
            return res
        # confirm by replaying the tape
        rdir = os.path.join(BUILD, "replay")
        os.makedirs(rdir, exist_ok=True)
        keep = os.path.join(rdir, "%s_%s.tape" % (pid, self.name()))
        shutil.copy(tape, keep)
        rrc, rout, rerr, _ = run([exe, "--property", pid, "--replay", keep], 60, env=ENV)
        res["tape"], res["replay_cmd"] = keep, "%s --property %s --replay %s" % (exe, pid, keep)
        res["replayed"] = (rrc != 0)
        res["replay_output"] = (rout + rerr)[-6000:]
        if rrc == 0:       # not reproducible: state carried over between cases; keep, but say so
            res["reason"] += " (did not reproduce in isolation)"
        return res
