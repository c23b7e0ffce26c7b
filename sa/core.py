"""Results, evidence, known findings and the command line shared by every check."""
import json
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(ROOT, "evidence")
from .program import AnalysisBroken, Program, construct_key, where  # noqa: E402


class Result:
    """What one check found and what it looked at."""

    def __init__(self, rule):
        self.rule = rule
        self.violations = {}      # key -> dict(message, where, path)
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.coverage = {}
        self.samples = []
        self.assumptions = []

    def violate(self, key, message, node=None, path=()):
        if key not in self.violations:
            self.violations[key] = {"message": message, "where": where(node) if node is not None else "",
                                    "path": list(path)}

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def oblige(self, ok, sample=None):
        """One obligation; ok True: discharged, None: not decided (quiet), False: violated (reported by violate)."""
        self.obligations += 1
        if ok:
            self.discharged += 1
        elif ok is None and sample:
            self.undecided.append(sample)
        if ok and sample and len(self.samples) < 6:
            self.samples.append(sample)


def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {e["key"]: e["what"] for e in d.get("findings", []) if e["property"] == pid}


def finish(pid, res, t0, tier):
    known = known_findings(pid)
    new, old = {}, {}
    for k, v in res.violations.items():
        (old if k in known else new)[k] = v
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    rep = os.path.join(EVID, "replay", pid + ".txt")
    with open(rep, "w") as f:
        for k, v in sorted(res.violations.items()):
            f.write(("KNOWN " if k in known else "") + f"{pid}: {v['message']}\n  construct: {k}\n  at: {v['where']}\n")
            for s in v["path"]:
                f.write(f"    {s}\n")
        f.write(f"\nrule: {res.rule}\nreproduce: cd /verif && python3 check.py {pid}\n")
    cov = dict(res.coverage)
    cov["explanation"] = ("Rule applied to the current source of /repo/aalpy, nothing executed: " + res.rule)
    cov["obligations"] = res.obligations
    cov["discharged"] = res.discharged
    cov["undecided"] = len(res.undecided)
    cov["undecided_constructs"] = sorted(set(res.undecided))[:40]
    cov["samples"] = res.samples or ["(none)"]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
          "coverage": cov, "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 3),
          "violations": len(new)}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k, v in sorted(old.items()):
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    for k, v in sorted(new.items()):
        print(f"{pid}: {v['message']}  [{v['where']}]  construct: {k}")
    if new:
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    print(f"{pid}: held on {res.obligations} obligations ({res.discharged} discharged, {len(res.undecided)} undecided) "
          f"in {ev['wall_s']} s")
    return 0


def main(argv):
    from . import registry
    ids = argv[1:] or sorted(registry.CHECKS)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    rc = 0
    for pid in ids:
        t0 = time.time()
        try:
            res = registry.CHECKS[pid](tier)
            if res.obligations == 0:
                raise AnalysisBroken("nothing to decide: no obligation was found")
            rc = max(rc, finish(pid, res, t0, tier))
        except Exception as e:  # an error of the check, not a verdict
            if not isinstance(e, AnalysisBroken):
                traceback.print_exc()
            print(f"{pid}: analysis failed: {e}", file=sys.stderr)
            return 2
    return rc
