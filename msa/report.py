"""Findings, obligations and known findings."""
from __future__ import annotations

import os

KNOWN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")


def known(pid):
    """{key: description} of the 'known:' lines of one property. 'fixed:' lines suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith(f"known: property={pid} "):
                key, _, what = line[len(f"known: property={pid} "):].partition(" :: ")
                out[key.strip()] = what.strip()
    return out


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.findings = []
        self.groups = {}  # name -> [obligations, decided]
        self.undecided = []
        self.samples = []
        self.floors = {}
        self.rule = ""
        self.extra = {}

    def violation(self, rule, construct, msg):
        self.findings.append({"key": f"{rule}@{construct}", "msg": msg})

    def ok(self, group, sample=None):
        g = self.groups.setdefault(group, [0, 0])
        g[0] += 1
        g[1] += 1
        if sample is not None and sum(1 for s in self.samples if s.startswith(group + ":")) < 4:
            self.samples.append(f"{group}: {sample}")

    def bad(self, group, rule, construct, msg):
        g = self.groups.setdefault(group, [0, 0])
        g[0] += 1
        g[1] += 1
        self.violation(rule, construct, msg)

    def skip(self, group, what):
        g = self.groups.setdefault(group, [0, 0])
        g[0] += 1
        self.undecided.append(f"{group}: {what}")

    def floor(self, group, n):
        self.floors[group] = n

    def below_floor(self):
        return [f"group {g}: only {self.groups.get(g, [0, 0])[1]} instances decided, expected at least {n}"
                for g, n in self.floors.items() if self.groups.get(g, [0, 0])[1] < n]

    def coverage(self):
        return {"explanation": self.rule, "obligations": sum(g[0] for g in self.groups.values()), "decided": sum(g[1] for g in self.groups.values()),
                "by_group": {k: {"obligations": v[0], "decided": v[1]} for k, v in self.groups.items()},
                "undecided": self.undecided[:200], "undecided_count": len(self.undecided), "samples": self.samples[:40], **self.extra}
