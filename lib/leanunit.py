"""Lemmas about trees and sequences that join the contracts, checked by Lean on every run."""
import re
from common import *


class LeanUnit:
    kind = "lean"
    weight = 1

    def __init__(self, name, file):
        self.name, self.file, self.functions, self.bound, self.prop = name, file, [], None, None

    def prove(self, deadline):
        r = Result(self)
        r.backend = "Lean 4.33.0"
        path = os.path.join(VERIF, "lean", self.file)
        text = open(path).read()
        names = re.findall(r"^theorem\s+([\w.]+)", text, re.M)
        tmp = os.path.join(BUILD, "lean", (self.prop or "x") + "_" + self.file)
        os.makedirs(os.path.dirname(tmp), exist_ok=True)
        with open(tmp, "w") as f:
            f.write(text + "\n" + "\n".join("#print axioms " + n for n in names) + "\n")
        rc, out, err, secs = run(["lean", tmp], min(300, deadline - time.time()))[:4]
        r.seconds, r.output = secs, out + err
        ax = set(re.findall(r"[\w.]+", " ".join(re.findall(r"depends on axioms: \[([^\]]*)\]", out))))
        r.obligations = r.covers = len(names)
        if rc == 0 and "sorry" not in out + text and ax <= {"propext", "Quot.sound", "Classical.choice"}:
            r.discharged, r.status = len(names), "proved"
        else:
            r.status, r.reason = "undecided", "lean: exit %s %s %s" % (rc, sorted(ax), (out + err)[-600:])
        return r
