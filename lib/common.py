"""Shared plumbing of the checks: units, running them, evidence, verdict."""
import json, os, re, subprocess, sys, threading, time, signal, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CANCEL = threading.Event()       # a failing input is found and replayed: the rest of the run cannot change the verdict
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def run(cmd, timeout, cwd=None, env=None, stdin=None):
    """Run in an own process group; kill the whole group on timeout.
    Returns (rc, stdout, stderr, seconds); rc is None on timeout."""
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    while True:
        try:
            out, err = p.communicate(input=stdin, timeout=max(0.1, min(0.5, t0 + timeout - time.time())))
            rc = p.returncode
            break
        except subprocess.TimeoutExpired:
            if time.time() < t0 + timeout and not CANCEL.is_set():
                continue
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
            rc = None
            break
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), time.time() - t0


class Result:
    """What one proof unit established.
    status: 'proved'    every obligation discharged (and every cover reached)
            'failed'    a named obligation is not discharged
            'undecided' tool limit, time-out, or the source no longer fits the unit
    bounded: a bound that applies, else None"""

    def __init__(self, unit):
        self.unit = unit
        self.status = "undecided"
        self.obligations = 0
        self.discharged = 0
        self.failed = []        # [(name, detail)]
        self.covers = 0
        self.reason = ""
        self.seconds = 0.0
        self.backend = ""
        self.bounded = None
        self.output = ""

    def as_json(self):
        d = {"unit": self.unit.name, "status": self.status, "obligations": self.obligations,
             "discharged": self.discharged, "seconds": round(self.seconds, 2), "backend": self.backend,
             "functions": self.unit.functions}
        if self.covers:
            d["reachability_covers_reached"] = self.covers
        if self.failed:
            d["failed"] = [n for n, _ in self.failed][:20]
        if self.reason:
            d["reason"] = self.reason[:2000]
        if self.bounded:
            d["bounded"] = self.bounded
        return d
