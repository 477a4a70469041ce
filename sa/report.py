"""Obligations, known findings, evidence and exit status of one check."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def load_known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split("key=", 1)[1]
                key, _, desc = rest.partition(" :: ")
                out[key.strip()] = desc.strip()
    return out


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obl = []           # (key, ok, msg, where)
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.known = load_known(prop)
        self.analysed = set()

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fn(self, body):
        self.analysed.add(body.path)

    def ob(self, key, ok, msg="", where=""):
        """one obligation.  key: stable, no line numbers"""
        self.obl.append((key, bool(ok), msg, where))
        return bool(ok)

    def floor(self, name, got, least, what):
        """vacuity guard: the anchor set must not silently shrink below what confers meaning"""
        self.ob("anchor:%s" % name, got >= least, "%s: found %d, need at least %d" % (what, got, least))
        self.counts["anchors_" + name] = got

    def finish(self):
        viol, known = [], []
        seen = set()
        for key, ok, msg, where in self.obl:
            if ok or key in seen:
                continue
            seen.add(key)
            if key in self.known:
                known.append((key, msg, where))
            else:
                viol.append((key, msg, where))
        ev_dir = os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        n = len(self.obl)
        good = sum(1 for o in self.obl if o[1])
        expl = "; ".join("%s=%s" % (k, v) for k, v in sorted(self.counts.items()))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the MIR of /repo's current tree. Rules: %s || analysed: %s" % (" | ".join(self.rules), expl),
                "obligations": n, "discharged": good,
                "functions_analysed": len(self.analysed),
                "functions": sorted(self.analysed)[:400],
                "counts": self.counts,
                "known_findings": [k for k, _, _ in known],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        replay = os.path.join(ev_dir, "%s.violations.json" % self.prop)
        with open(os.path.join(ev_dir, "%s.json" % self.prop), "w") as f:
            json.dump(ev, f, indent=1)
        if viol:
            with open(replay, "w") as f:
                json.dump([{"key": k, "what": m, "where": w} for k, m, w in viol], f, indent=1)
        elif os.path.exists(replay):
            os.remove(replay)
        print("%s: %d obligations, %d discharged, %d functions analysed; %s" % (self.prop, n, good, len(self.analysed), expl))
        for k, m, w in known:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (self.prop, m, k, w))
        for k, m, w in viol:
            print("  violated: [%s] %s (%s)" % (k, m, w))
        if viol:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        return 0
