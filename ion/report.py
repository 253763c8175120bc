"""Collects what a check analysed and decided; prints the verdict and writes the evidence file."""
import json
import os
import re
import sys
import time

from .domain import find_model, Lin, SYMS, DEEP
from .engine import clean, relfile, model_text

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
    """KNOWN_FINDINGS: `finding: property=<id> key=<rule|function|detail> ...` lines suppress exactly that violation."""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) ?(.*)", ln)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out


class Report:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.on_violation = None
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.viol = []
        self.viol_keys = set()  # (rule, where, text) already reported
        self.deep_s = 0.0       # time spent looking for points
        self.seen_bad = {}      # (rule, where, text) -> times it could not be decided
        self.und = {}
        self.rules = {}        # rule -> [discharged, violated, undecided]
        self.ruletext = {}
        self.samples = []
        self.functions = set()
        self.counts = {}
        self.notes = []
        self.broken = []

    # ---- recording
    def rule(self, rid, text):
        self.ruletext[rid] = text
        self.rules.setdefault(rid, [0, 0, 0])

    def ok(self, rid, n=1):
        self.rules.setdefault(rid, [0, 0, 0])[0] += n

    def sample(self, rid, what):
        if sum(1 for s in self.samples if s["rule"] == rid) < 4 and len(self.samples) < 40:
            self.samples.append({"rule": rid, "what": str(what)[:400]})

    def undecided(self, rid, what):
        r = self.rules.setdefault(rid, [0, 0, 0])
        r[2] += 1
        self.und[(rid, str(what)[:300])] = self.und.get((rid, str(what)[:300]), 0) + 1

    def violation(self, rid, fn, where, text, path=(), model=None):
        r = self.rules.setdefault(rid, [0, 0, 0])
        r[1] += 1
        key = "%s|%s" % (rid, fn)
        self.viol_keys.add((rid, where, text))
        if self.on_violation is not None and not any(k in (key, key + "|" + where.split(":")[0]) for p, k, _ in load_known() if p == self.prop):
            f, self.on_violation = self.on_violation, None
            f()
        for v in self.viol:
            if v["rule"] == rid and v["where"] == where and v["text"] == text:
                v["count"] += 1
                return
        self.viol.append({"rule": rid, "function": fn, "where": where, "text": text, "path": list(path),
                          "model": model, "key": key, "count": 1})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # ---- engine helpers
    def judge(self, rid, eng, st, cond, fn, where, text):
        """Obligation: cond holds in the abstract state st."""
        if cond is True or (cond is not False and eng.decide(st, cond)):
            self.ok(rid)
            return True
        key = (rid, where, text)
        if self.seen_bad.get(key, 0) >= (100 if self.deep_s < 150 else 3):        # judged often enough; the outcome is recorded
            self.rules.setdefault(rid, [0, 0, 0])[1 if key in self.viol_keys else 2] += 1
            return False if key in self.viol_keys else None
        if key in self.viol_keys:
            self.rules[rid][1] += 1
            return False
        DEEP[0] = True
        t = time.time()
        try:
            r = self.judge_deep(rid, eng, st, cond, fn, where, text)
            if r is None:
                self.seen_bad[key] = self.seen_bad.get(key, 0) + 1
            return r
        finally:
            DEEP[0] = False
            self.deep_s += time.time() - t

    def judge_deep(self, rid, eng, st, cond, fn, where, text):
        if cond is not False and eng.decide(st, cond):
            self.ok(rid)
            return True
        bad = [st] if cond is False else eng.branch(st.copy(), cond)[1]
        res = True
        for b in bad:
            if b.imp or b.widened:
                self.undecided(rid, "%s: %s (state not exact: %s)" % (where, text, b.imp or "widened loop"))
                res = None
                continue
            m = eng.model(b)
            if m is not None:
                self.violation(rid, fn, where, text, b.path_list(), model_text(m))
                return False
            res = None if res is True and not self.refuted(b) else res
        if res:
            self.ok(rid)
        elif res is None and not any(b.imp or b.widened for b in bad):
            self.undecided(rid, "%s: %s (no concrete point found)" % (where, text))
        return res

    @staticmethod
    def refuted(st):
        """The bounded search found no point; accept the state as empty only if the domain says so."""
        from .domain import fm_infeasible
        return False

    def fail(self, rid, eng, st, fn, where, text):
        return self.judge(rid, eng, st, False, fn, where, text)

    def engine(self, eng, kinds=None, rid=None):
        """Takes over the engine's own obligations of these kinds."""
        for (kind, fn, where, text), (n, bad) in eng.obl.items():
            if kinds is None or kind in kinds:
                self.ok(rid or kind, n - bad)
                self.functions.add(fn)
                self.sample(rid or kind, "%s in %s at %s" % (text, fn, where))
        for f in eng.fail:
            if kinds is None or f["kind"] in kinds:
                if f["definite"]:
                    self.violation(rid or f["kind"], f["fn"], f["where"], f["text"], f["path"], f["model"])
                else:
                    self.undecided(rid or f["kind"], "%s: %s (%s)" % (f["where"], f["text"], f["imp"] or
                                                                     ("widened loop" if f["widened"] else "no concrete point found")))
        self.absorb(eng)

    def absorb(self, eng):
        self.functions |= {q for q in eng.called if eng.by_name.get(q)}
        self.count("abstract_steps", eng.steps)
        for k, n in eng.cuts.items():
            self.counts.setdefault("loops_widened", {})
            self.counts["loops_widened"][k] = self.counts["loops_widened"].get(k, 0) + n
        for k, n in eng.unmodelled.items():
            self.counts.setdefault("unmodelled", {})
            self.counts["unmodelled"][k] = self.counts["unmodelled"].get(k, 0) + n

    # ---- end
    def finish(self):
        known = [(k, d) for p, k, d in load_known() if p == self.prop]
        left = []
        printed = []
        for v in self.viol:
            hit = next(((k, d) for k, d in known if k == v["key"] or k == v["key"] + "|" + v["where"].split(":")[0]), None)
            if hit:
                ln = "KNOWN-FINDING: property=%s %s %s" % (self.prop, hit[0], hit[1])
                if ln not in printed:
                    printed.append(ln)
                    print(ln)
            else:
                left.append(v)
        checked = sum(sum(r[:2]) for r in self.rules.values())
        cov = {
            "explanation": "Static analysis of the current source (clang AST facts of every translation unit). Rules: " +
                           " | ".join("%s: %s" % x for x in sorted(self.ruletext.items())),
            "obligations_discharged": {k: r[0] for k, r in sorted(self.rules.items())},
            "obligations_violated": {k: r[1] for k, r in sorted(self.rules.items()) if r[1]},
            "obligations_undecided": {k: r[2] for k, r in sorted(self.rules.items()) if r[2]},
            "functions_analysed": sorted(self.functions),
            "functions_analysed_count": len(self.functions),
            "measured": self.counts,
            "samples": self.samples,
            "undecided": [{"rule": k[0], "what": k[1], "count": n} for k, n in sorted(self.und.items())][:60],
            "notes": self.notes,
            "entries_not_analysed": self.broken,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 3)}
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write("\n")
        for r, (a, b, c) in sorted(self.rules.items()):
            print("%-28s discharged %-6d violated %-4d undecided %d" % (r, a, b, c))
        for k, n in sorted(self.und.items())[:12]:
            print("undecided [%s] %s x%d" % (k[0], k[1], n))
        for b in self.broken:
            print("not analysed: " + b)
        if left:
            rp = os.path.join(d, self.prop + ".violation.json")
            with open(rp, "w") as f:
                json.dump(left, f, indent=1, default=str)
                f.write("\n")
            for v in left[:8]:
                print("violation [%s] %s at %s: %s" % (v["rule"], v["function"], v["where"], v["text"]))
                if v["model"]:
                    print("    for example: " + str(v["model"])[:600])
                for p in v["path"][-14:]:
                    print("    " + p)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        rp = os.path.join(d, self.prop + ".violation.json")
        if os.path.exists(rp):
            os.remove(rp)
        if checked == 0:
            print("ERROR: nothing was analysed for %s" % self.prop)
            return 2
        return 0
