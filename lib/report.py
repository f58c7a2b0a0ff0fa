"""Verdicts, known findings and evidence of one check."""
import json, os, re, sys, time
from core import *


def known_findings(prop):
    """Lines 'known: property=<id> sig=<regex> <text>' of known_findings.txt."""
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0,
                    "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.viol = []          # (signature, text, replay object)
        self.found = {}         # known findings seen
        self.assume = []
        self.known = known_findings(prop)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def violation(self, sig, text, replay):
        for rx, what in self.known:
            if re.fullmatch(rx, sig):
                self.found[what] = self.found.get(what, 0) + 1
                return
        self.viol.append((sig, text, replay))

    def finish(self):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        for f in os.listdir(ev):
            if f.startswith("replay-%s-" % self.prop):
                os.unlink(os.path.join(ev, f))
        for rx, what in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        shown, n = {}, 0
        for sig, text, replay in self.viol:
            shown[sig] = shown.get(sig, 0) + 1
            if shown[sig] > 2 or n >= 10:
                continue
            n += 1
            p = os.path.join(ev, "replay-%s-%d.json" % (self.prop, n))
            json.dump({"property": self.prop, "signature": sig, "what": text, "replay": replay}, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("   ", sig, "|", text[:1500])
        for s, k in sorted(shown.items(), key=lambda x: -x[1]):
            print("    %6d x %s" % (k, s))
        wall = round(time.time() - T0, 1)
        json.dump({"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
                   "assumptions": self.assume, "wall_s": wall, "violations": len(self.viol)},
                  open(os.path.join(ev, self.prop + ".json"), "w"), indent=1)
        log("%s: %s; %s" % (self.prop, "VIOLATED" if self.viol else "held",
                            {k: v for k, v in self.cov.items() if isinstance(v, (int, float))}))
        sys.stdout.flush()
        return 1 if self.viol else 0
