# -*- coding: utf-8 -*-
"""Shared plumbing: where the repository is, reports, evidence, known findings."""
import json
import os
import sys
import time
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
NPROC = int(os.environ.get("VP_JOBS", "8"))


class Anchor(Exception):
    """Something the check is anchored in is gone: the analysis is broken."""


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.violations = []   # dict(key, where, msg, detail)
        self.counts = {}       # measured numbers for the evidence
        self.assumptions = []
        self.rules = []
        self.samples = []
        self.explain = []
        self.obligations = 0
        self.discharged = 0

    # -------------------------------------------------------------- findings
    def violation(self, key, where, msg, detail=""):
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append(dict(key=key, where=where, msg=msg, detail=detail))

    def oblige(self, ok, key, where, msg, detail=""):
        """one obligation; counts it and reports it when it fails"""
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            self.violation(key, where, msg, detail)
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    # --------------------------------------------------------------- writing
    def finish(self):
        known = load_known(self.pid)
        unknown, listed = [], []
        for v in self.violations:
            (listed if any(k and k in v["key"] for k in known) else unknown).append(v)
        d = os.environ.get("VP_EVID") or os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, "replay")
        os.makedirs(rp, exist_ok=True)
        replay = os.path.join("evidence", "replay", "%s.txt" % self.pid)
        full = os.path.join(rp, "%s.txt" % self.pid)
        if os.path.exists(full):
            os.remove(full)
        cov = dict(self.counts)
        cov["obligations"] = self.obligations
        cov["discharged"] = self.discharged
        cov["explanation"] = " ".join(self.explain)
        cov["rules"] = self.rules
        if self.samples:
            cov["samples"] = self.samples
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="other",
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(unknown))
        with open(os.path.join(d, "%s.json" % self.pid), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
            f.write("\n")
        for v in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, v["where"], v["msg"]))
        if not unknown:
            print("OK property=%s obligations=%d %s" % (
                self.pid, self.obligations, " ".join("%s=%s" % kv for kv in sorted(self.counts.items())
                                                     if isinstance(kv[1], (int, float)))))
            return 0
        with open(full, "w") as f:
            for v in unknown:
                f.write("rule:  %s\nwhere: %s\n%s\n" % (v["key"], v["where"], v["msg"]))
                if v["detail"]:
                    f.write(v["detail"].rstrip() + "\n")
                f.write("\n")
        for v in unknown[:20]:
            print("%s: [%s] %s" % (v["where"], v["key"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (self.pid, replay))
        return 1


def load_known(pid):
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if line.startswith("known: property=%s " % pid):
            rest = line.split(" ", 2)[2]
            out.append(rest.split(" ", 1)[0])
    return out
