"""Collects the obligations of one check, compares violations with the known findings, writes the evidence."""
import json, os, sys, time

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = {}            # rule -> [decided true, undecided]
        self.viol = {}           # key -> text
        self.und = []
        self.notes = []
        self.samples = []
        self.stats = {}
        self.functions = set()
        self.assumptions = []
        self.rules = []

    def ok(self, rule, n=1): self.obl.setdefault(rule, [0, 0])[0] += n
    def undecided(self, rule, text):
        self.obl.setdefault(rule, [0, 0])[1] += 1
        self.und.append(text)
    def bad(self, key, text): self.viol.setdefault(key, text)
    def stat(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n

    def merge(self, d):
        for r, (a, b) in d["obl"].items():
            o = self.obl.setdefault(r, [0, 0]); o[0] += a; o[1] += b
        for k, t in d["viol"].items(): self.viol.setdefault(k, t)
        self.und += d["und"]; self.notes += d["notes"]
        for k, n in d["stats"].items(): self.stat(k, n)
        self.functions |= set(d["functions"])
        for s in d["samples"]:
            if len(self.samples) < 8: self.samples.append(s)

    def dump(self):
        return dict(obl=self.obl, viol=self.viol, und=self.und, notes=self.notes, stats=self.stats, functions=sorted(self.functions), samples=self.samples)

    def finish(self, explanation):
        known = {}
        try:
            for e in json.load(open(KNOWN)):
                if e["property"] == self.pid and e["status"] == "known": known[e["key"]] = e
        except FileNotFoundError: pass
        new = {k: t for k, t in self.viol.items() if k not in known}
        seen = [k for k in self.viol if k in known]
        done = sum(a for a, _ in self.obl.values())
        und = sum(b for _, b in self.obl.values())
        if done == 0 and not new:
            new["no-obligations"] = "nothing was analysed: no construct of the property was found in the current tree"
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="other",
                  coverage=dict(explanation=explanation, obligations_total=done + und + len(self.viol), obligations_decided_true=done, obligations_undecided=und,
                                obligations_by_rule={k: dict(holds=a, undecided=b) for k, (a, b) in sorted(self.obl.items())},
                                analysed=self.stats, library_functions_seen=sorted(self.functions)[:400], undecided=self.und[:60],
                                samples=self.samples[:8], notes=self.notes[:60], known_findings_seen=seen),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in seen: print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]["what"]))
        print("%s: %d obligations hold, %d undecided, %d violations, %d known (%.1fs)" % (self.pid, done, und, len(new), len(seen), time.time() - self.t0))
        if os.environ.get("VERIF_VERBOSE"):
            for u in self.und[:40]: print("  undecided:", u)
            for u in self.notes[:20]: print("  note:", u)
        if new:
            path = os.path.join(VERIF, "evidence", "replay", self.pid + ".txt")
            with open(path, "w") as f:
                for k, t in sorted(new.items()): f.write("%s\n    %s\n" % (k, t))
            for k, t in sorted(new.items())[:12]: print("  %s: %s" % (k, t))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        return 0
