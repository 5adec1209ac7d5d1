"""Obligations, findings and evidence."""
import json
import os
import time

from .project import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Ctx:
    """Collects what one property's rules analysed and what they found."""
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obligations = {}     # (rule, construct) -> ok
        self.findings = []        # (key, message, where)
        self.where = {}
        self.functions = set()
        self.rules = {}
        self.notes = []
        self.counts = {}

    def rule(self, name, text):
        """Declare a rule (its text goes to the evidence)."""
        self.rules[name] = text

    def ok(self, rule, construct, where=""):
        """An obligation was discharged."""
        self.obligations.setdefault((rule, construct), True)
        if where:
            self.where[(rule, construct)] = where

    def bad(self, rule, construct, message, where=""):
        """An obligation is violated at CONSTRUCT."""
        key = "%s|%s" % (rule, construct)
        self.obligations[(rule, construct)] = False
        self.where[(rule, construct)] = where
        if key not in [f[0] for f in self.findings]:
            self.findings.append((key, message, where))

    def check(self, cond, rule, construct, message, where=""):
        if cond:
            self.ok(rule, construct, where)
        else:
            self.bad(rule, construct, message, where)

    def saw(self, fi):
        """Record a function as analysed."""
        self.functions.add(fi if isinstance(fi, str) else fi.ident)

    def count(self, name, num):
        self.counts[name] = self.counts.get(name, 0) + num

    def at_least(self, rule, num):
        """Fail the analysis if RULE matched fewer instances than confirmed."""
        have = len([1 for r, _ in self.obligations if r == rule])
        if have < num:
            raise AnalysisBroken("rule %s matched %d instances, expected at least %d"
                                 % (rule, have, num))


def load_known():
    """Known findings: 'finding: property=<id> key=<key> :: text'."""
    known = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as src:
            for line in src:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                body = line[len("finding:"):].strip()
                head, _, text = body.partition(" :: ")
                parts = head.split(" ", 1)
                prop = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                known[(prop, key)] = text
    return known


def finish(ctx, level="other"):
    """Print the verdict, write the evidence, return the exit status."""
    known = load_known()
    new = []
    for key, msg, where in ctx.findings:
        if (ctx.prop, key) in known:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (ctx.prop, key, where, known[(ctx.prop, key)]))
        else:
            new.append((key, msg, where))
    total = len(ctx.obligations)
    good = len([1 for v in ctx.obligations.values() if v])
    per_rule = {}
    for (rule, _), okay in ctx.obligations.items():
        slot = per_rule.setdefault(rule, [0, 0])
        slot[0] += 1
        slot[1] += 1 if okay else 0
    samples = []
    seen = {}
    for (rule, construct), okay in sorted(ctx.obligations.items()):
        if seen.get(rule, 0) < 4 or not okay:
            seen[rule] = seen.get(rule, 0) + 1
            samples.append({"rule": rule, "construct": construct,
                            "where": ctx.where.get((rule, construct), ""), "holds": okay})
    evidence = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": {
            "explanation": "Static analysis of the sources in /repo; nothing is executed. "
                           "Rules: " + " || ".join("%s: %s" % kv for kv in sorted(ctx.rules.items())),
            "obligations": total,
            "discharged": good,
            "obligations_by_rule": {r: {"instances": a, "hold": b} for r, (a, b) in sorted(per_rule.items())},
            "functions_analysed": len(ctx.functions),
            "functions": sorted(ctx.functions)[:400],
            "counts": ctx.counts,
            "samples": samples[:60],
            "known_findings": [f[0] for f in ctx.findings if (ctx.prop, f[0]) in known],
            "notes": ctx.notes,
        },
        "assumptions": ["The interpreter semantics of /verif/sa model CPython for the constructs the "
                        "anchored functions use; unresolved callees are treated as opaque."],
        "wall_s": round(time.time() - ctx.t0, 3),
        "violations": len(new),
    }
    edir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, ctx.prop + ".json"), "w", encoding="utf-8") as out:
        json.dump(evidence, out, indent=1, sort_keys=True)
        out.write("\n")
    print("%s: %d obligations, %d hold, %d functions, %d rules" %
          (ctx.prop, total, good, len(ctx.functions), len(ctx.rules)))
    if new:
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, ctx.prop + ".txt")
        with open(path, "w", encoding="utf-8") as out:
            for key, msg, where in new:
                out.write("%s\n  at %s\n  %s\n" % (key, where, msg))
        for key, msg, where in new:
            print("  [%s] %s: %s" % (where, key, msg))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        return 1
    return 0
