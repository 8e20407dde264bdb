"""CBMC proof units: a contract harness around the real function, included from
/repo's current source, decided by CBMC's SAT back end."""
import os, re, time
from common import *
import cutloops

CBMC_STD = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--pointer-primitive-check",
            "--div-by-zero-check", "--signed-overflow-check", "--undefined-shift-check",
            "--unwinding-assertions", "--no-malloc-may-fail", "--drop-unused-functions"]


class CbmcUnit:
    kind = "cbmc"

    def __init__(self, name, file, entry, functions, defs=(), unwind=None, flags=(), bound=None,
                 cut=None, fallback=None, timeout=600, incs=(), weight=1, unwindset=(), nocover=()):
        self.name, self.file, self.entry, self.functions = name, file, entry, list(functions)
        self.defs, self.unwind, self.flags, self.bound = list(defs), unwind, list(flags), bound
        self.cut, self.fallback, self.timeout, self.incs, self.weight = cut, fallback, timeout, list(incs), weight
        self.unwindset = list(unwindset)
        self.nocover = list(nocover)
        self.prop = None                # set by check.py

    # -- one run of cbmc over the goto binary
    def _cbmc(self, gb, timeout, extra=()):
        cmd = ["cbmc", gb] + CBMC_STD + self.flags + list(extra)
        if self.unwind is not None:
            cmd += ["--unwind", str(self.unwind)]
        for u in self.unwindset:
            cmd += ["--unwindset", u]
        return run(cmd, timeout) + (cmd,)

    def prove(self, deadline):
        r = self._prove(deadline)
        if r.status == "proved" or self.fallback is None or CANCEL.is_set():
            return r
        # Cut loops no longer fit (or an invariant is not re-established):
        # decide what can be decided with the loops unrolled, labelled bounded.
        fb = CbmcUnit(self.name + "~bounded", self.file, self.entry, self.functions, self.defs + self.fallback["defs"],
                      self.fallback["unwind"], self.flags, self.fallback["bound"], (self.cut[0], None) + tuple(self.cut[2:]) if self.cut else None, None,
                      self.fallback.get("timeout", 300), self.incs)
        fb.prop = self.prop
        b = fb._prove(deadline)
        r.seconds += b.seconds
        if b.status == "failed":                 # no invariant involved: the obligation itself is false
            b.unit = self
            b.failed = [("%s [unrolled, %s]" % (n, self.fallback["bound"]), d) for n, d in b.failed]
            b.seconds, b.traceunit = r.seconds, fb
            b.obligations, b.discharged = r.obligations or b.obligations, r.discharged
            return b
        r.bounded = self.fallback["bound"] if b.status == "proved" else None
        r.reason += " | unrolled stand-in (%s): %s %s" % (self.fallback["bound"], b.status, b.reason[:300])
        return r

    def _prove(self, deadline):
        r = Result(self)
        t0 = time.time()
        work = os.path.join(BUILD, "cbmc", self.prop or "x")
        os.makedirs(work, exist_ok=True)
        gb = os.path.join(work, self.name.replace("/", "_") + ".gb")
        r.backend = "CBMC 6.11.0 / " + ("Z3 4.8.12" if "--z3" in self.flags else "cvc5 1.1.2" if "--cvc5" in self.flags
                                        else "SAT (CaDiCaL)" if "cadical" in self.flags else "SAT (MiniSat2)")
        incs = ["-I" + os.path.join(VERIF, "cbmc")] + ["-I" + i for i in self.incs]
        if self.cut:
            rel, loops = self.cut[:2]
            rename = self.cut[2] if len(self.cut) > 2 else ()
            subst = self.cut[3] if len(self.cut) > 3 else ()
            incs.append("-I" + os.path.dirname(os.path.join(REPO, rel)))
            try:
                d = os.path.join(work, self.name.replace("/", "_") + ".src")
                if loops or rename or subst:
                    cutloops.cut(os.path.join(REPO, rel), os.path.join(d, "cut", rel), loops or {}, rename=rename, subst=subst)
                    incs.append('-DCUTSRC="cut/%s"' % rel)
                else:
                    incs.append('-DCUTSRC="%s"' % rel)
            except Exception as e:                       # source no longer fits the unit
                r.reason = "extraction: %s" % e
                r.seconds = time.time() - t0
                return r
            incs = ["-I" + d] + incs
        src = os.path.join(VERIF, "cbmc", self.file)
        cmd = ["goto-cc"] + incs + ["-I" + REPO] + self.defs + ["--function", self.entry, src, "-o", gb]
        rc, out, err, _ = run(cmd, 120)
        if rc != 0:
            r.reason = "goto-cc: " + (out + err)[-1500:]
            r.seconds = time.time() - t0
            return r
        rc, out, err, secs, cmd = self._cbmc(gb, min(self.timeout, deadline - time.time()))
        r.seconds = time.time() - t0
        r.output = " ".join(cmd) + "\n" + out + err
        if rc is None:
            r.reason = "time-out"
            return r
        self._parse(r, out)
        if r.failed and all("unwinding" in n for n, _ in r.failed):
            # a loop now needs more iterations than the unit unwinds: not a violation.
            r.status, r.bounded = "undecided", "loops unwound %s times" % self.unwind
            r.reason = "loop no longer within the unwinding of the unit: " + r.failed[0][0]
            r.failed = []
        elif r.failed and any("unwinding" in n for n, _ in r.failed):
            r.failed = [f for f in r.failed if "unwinding" not in f[0]]
        if rc not in (0, 10) and r.status != "undecided":
            r.status, r.reason = "undecided", "cbmc exit %s: %s" % (rc, (out + err)[-600:])
        if self.bound:
            r.bounded = self.bound
        return r

    def _parse(self, r, out):
        vac, nprop = [], 0
        for m in re.finditer(r"^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", out, re.M):
            pid, line, desc, st = m.groups()
            nprop += 1
            if desc.startswith("COVER "):
                t = re.match(r"COVER \[([^\]]*)\]", desc)
                if t and self.entry.replace("unit_", "", 1) not in [x.strip() for x in t.group(1).split(",")]:
                    continue
                if any(c in desc for c in self.nocover):
                    continue
                if st == "FAILURE":
                    r.covers += 1
                elif not self.bound:
                    vac.append(desc)
                continue
            t = re.match(r"(?:ENSURES|INVARIANT) (C\d\d(?:,C\d\d)*): ", desc)
            if t and self.prop and self.prop not in t.group(1).split(","):
                continue                      # obligation of another property
            r.obligations += 1
            if st == "SUCCESS":
                r.discharged += 1
            elif st == "FAILURE":
                r.failed.append(("%s: %s" % (pid, desc), "line %s" % line))
            else:
                r.reason = "%s: %s" % (st, desc)
        if "VERIFICATION" not in out or nprop == 0 or r.obligations == 0:
            r.status = "undecided"
            r.reason = r.reason or "no obligations generated"
        elif r.failed:
            r.status = "failed"
        elif r.reason:
            r.status = "undecided"
        elif vac or r.covers == 0:
            # a postcondition became unreachable: the harness is vacuous here
            r.status = "undecided"
            r.reason = "vacuous: not reachable: " + "; ".join(vac)
        else:
            r.status = "proved"

    def counterexample(self, deadline):
        """The verifier's counterexample trace for the first failing obligation."""
        gb = os.path.join(BUILD, "cbmc", self.prop or "x", self.name.replace("/", "_") + ".gb")
        return gb

    def trace(self, pid, timeout):
        gb = os.path.join(BUILD, "cbmc", self.prop or "x", self.name.replace("/", "_") + ".gb")
        rc, out, err, secs, cmd = self._cbmc(gb, timeout, ["--trace", "--property", pid])
        return " ".join(cmd) + "\n" + out
