"""Collects obligations, violations and undecided paths of one run."""
import json
import os
import re
import sys
import time

from engine.program import AnalysisBroken, REPO, VERIF

EVIDENCE = os.environ.get("COCPP_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """keys of recorded findings of the current tree (`fixed:` lines suppress nothing)"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Report:
    def __init__(self, prop, tier="quick", seed=0):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rules = {}
        self.viol = {}
        self.undecided = {}
        self.functions = set()
        self.sites = set()
        self.paths = 0
        self.bounded = set()
        self.widened = set()
        self.taints = {}
        self.extra = {}
        self.notes = []
        self.expect = {}
        self.assumptions = []
        self.t0 = time.time()

    # ---- obligations -----------------------------------------------------------
    def rule(self, rid, text, least=1):
        """declare a rule of this property; it must be evaluated on at least `least` distinct sites"""
        self.rules.setdefault(rid, {"text": text, "sites": set(), "n": 0, "ok": 0})
        self.expect[rid] = least

    def wants(self, props):
        return self.prop in props.split()

    def check(self, props, rid, ok, st, where, msg, fn=""):
        """one evaluation of a rule; ok: True/False"""
        if not self.wants(props):
            return ok
        r = self.rules.get(rid)
        if r is None:
            raise AnalysisBroken("rule %s of %s not declared" % (rid, self.prop))
        r["n"] += 1
        site = "%s %s" % (fn, where)
        if st is not None and st.taint:
            if not ok:
                self.undecided.setdefault((rid, fn), (msg, sorted(st.taint)))
            return ok
        r["sites"].add(site)
        if ok:
            r["ok"] += 1
        else:
            key = "%s@%s" % (rid, fn or where)
            self.viol.setdefault(key, []).append({"rule": rid, "text": r["text"], "function": fn, "where": where, "what": msg,
                                                  "path": trace_of(st)})
        return ok

    def use(self, it):
        """account for what an interpreter run analysed"""
        self.functions |= it.fn_seen
        self.sites |= it.sites
        self.bounded |= it.bounded
        self.widened |= it.widened
        for k, v in it.taints.items():
            self.taints[k] = self.taints.get(k, 0) + v

    # ---- output -------------------------------------------------------------------
    def finish(self):
        kf = known_findings(self.prop)
        new = {k: v for k, v in self.viol.items() if k not in kf}
        old = {k: v for k, v in self.viol.items() if k in kf}
        broken = []
        for rid, least in self.expect.items():
            got = len(self.rules[rid]["sites"])
            if got < least:
                broken.append("rule %s was evaluated on %d sites, expected at least %d" % (rid, got, least))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Static analysis of the type-checked program: every path of the functions listed was followed in an "
                               "abstract domain; each rule was evaluated at the sites counted here.",
                "functions_analysed": len(self.functions),
                "call_sites": len(self.sites),
                "paths_ended": self.paths,
                "rules": {rid: {"rule": r["text"], "distinct_sites": len(r["sites"]), "evaluations": r["n"], "held": r["ok"]}
                          for rid, r in sorted(self.rules.items())},
                "loops_bounded": sorted(str(x) for x in self.bounded)[:40],
                "loops_widened": sorted(str(x) for x in self.widened)[:40],
                "undecided": [{"rule": k[0], "function": k[1], "what": v[0], "because": v[1][:4]} for k, v in sorted(self.undecided.items())][:40],
                "unmodelled": sorted(self.taints)[:40],
                "samples": sorted(self.functions)[:12],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": [dict(v[0], key=k, count=len(v)) for k, v in sorted(self.viol.items())],
        }
        ev["coverage"].update(self.extra)
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, self.prop + ".json")
        with open(path, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        n = sum(r["n"] for r in self.rules.values())
        print("%s: %d functions, %d call sites, %d paths, %d rules, %d evaluations, %d undecided, %.1f s" % (
            self.prop, len(self.functions), len(self.sites), self.paths, len(self.rules), n, len(self.undecided), ev["wall_s"]))
        for rid, r in sorted(self.rules.items()):
            print("  %-28s %4d sites %6d evaluations  %s" % (rid, len(r["sites"]), r["n"], r["text"]))
        for k, v in sorted(old.items()):
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, kf[k], v[0]["where"]))
        for (rid, fn), v in sorted(self.undecided.items()):
            print("  undecided: %s in %s: %s (not modelled: %s)" % (rid, fn, v[0], ", ".join(v[1][:3])))
        if new:
            rp = os.path.join(EVIDENCE, self.prop + ".violation.json")
            with open(rp, "w") as fh:
                json.dump({k: v[:3] for k, v in new.items()}, fh, indent=1, default=str)
            for k, v in sorted(new.items()):
                print("  %s: %s\n    at %s in %s\n    rule: %s" % (k, v[0]["what"], v[0]["where"], v[0]["function"], v[0]["text"]))
                for s in v[0]["path"][-14:]:
                    print("      | " + s)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if broken:
            for b in broken:
                print("ANALYSIS-BROKEN: " + b)
            return 2
        return 0


def trace_of(st):
    if st is None:
        return []
    out = []
    for e in st.events()[-60:]:
        out.append(" ".join(short(x) for x in e))
    return out


def short(x):
    if isinstance(x, tuple):
        return ".".join(short(y) for y in x)
    return str(x)
