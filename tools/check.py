#!/usr/bin/env python3
"""check.py <property> [--thorough] [--seed N]: decides one property for /repo's working tree.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer."""
import json, os, random, re, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import VERIF, NoAnswer


class Run:
    """One run of the check of one property"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known, self.assumptions = [], [], [], []
        self.detail = []
        self.wd = vlib.workdir("%s-%s" % (prop, tier))
        self.rd = vlib.workdir("replay-%s" % prop)
        self.known_list = [k for k in json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]
                           if k["property"] == prop and k["status"] == "open"]

    def quick(self):
        return self.tier == "quick"

    def exe(self, features="full"):
        return vlib.build(features)

    def rng(self, name):
        return random.Random("%s/%d/%s" % (self.prop, self.seed, name))

    def violation(self, what, replay):
        """replay: everything needed to see it again"""
        for k in self.known_list:
            if k.get("finding") is not None and k["finding"] == replay.get("finding"):
                if k["id"] not in [x["id"] for x in self.known]:
                    self.known.append(k)
                return
        n = len(self.violations) + 1
        path = os.path.join(self.rd, "%d.json" % n)
        if n <= 20:
            json.dump(dict(replay, property=self.prop, what=what), open(path, "w"), indent=1)
        self.violations.append((what, path))

    def note(self, part, **kw):
        self.detail.append(dict(part=part, **kw))

    def finish(self, level):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "samples": self.samples[:6], "parts": self.detail},
            "assumptions": self.assumptions,
            "known_findings": [k["id"] for k in self.known],
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for what, path in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + what)
        print("%s %s: %d states, %d transitions, %d executions of the library checked, %d violations, %.1f s"
              % (self.prop, self.tier, self.states, self.transitions, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    prop = args[0]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--seed" in sys.argv:
        seed = int(sys.argv[sys.argv.index("--seed") + 1])
        args = [a for a in args if a != str(seed)] or args
        prop = args[0]
    import parts
    try:
        run = Run(prop, tier, seed)
        for part in parts.PARTS[prop]:
            part(run)
        rc = run.finish(parts.LEVELS.get(prop, "model_checking"))
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    sys.exit(rc)


if __name__ == "__main__":
    main()
