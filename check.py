#!/usr/bin/env python3
"""Decide one property from the current source of /repo.  usage: check.py <property> [quick|thorough]"""
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.core import Ctx, Program, AnalysisError, HOLDS, VIOLATED, UNDECIDED  # noqa: E402
from sa import hidden, terms as TM  # noqa: E402

RULES = ["rules_graph", "rules_actions", "rules_pipeline", "rules_steps", "rules_stats", "rules_generators", "rules_purity", "rules_paths", "rules_data", "rules_variables", "rules_workspace", "rules_loading", "rules_serialization", "rules_algorithms", "rules_results", "rules_samples", "rules_create"]
REPO = os.environ.get("SA_REPO", "/repo")
EVID = os.environ.get("SA_EVIDENCE", os.path.join(HERE, "evidence"))


def known_findings(prop):
    """lines 'KNOWN property=<id> rule=<rule> construct=<construct>' of the committed file"""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN property=(\S+) rule=(\S+) construct=<(.*?)> (.*)", line.strip())
            if m and m.group(1) == prop:
                out[(m.group(2), m.group(3))] = m.group(4)
    return out


def load_program():
    spec = os.path.join(HERE, "spec")
    extra = []
    if os.path.isdir(spec):
        for f in sorted(os.listdir(spec)):
            if f.endswith(".py"):
                extra.append(("vspec." + f[:-3], os.path.join(spec, f)))
    return Program(REPO, extra=extra)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    rule = None
    for m in RULES:
        mod = importlib.import_module("sa." + m)
        rule = getattr(mod, prop, None)
        if rule:
            break
    if rule is None:
        print("no rule for", prop)
        return 2
    try:
        prog = load_program()
        ctx = Ctx(prog, prop, tier)
        rule(ctx)
        hidden.check(ctx)
    except AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception as e:  # a failure of the analysis is never a verdict
        if os.environ.get("SA_DEBUG"):
            raise
        ctx.unk(prop + ".analysis", "whole property", "analysis failed: %s: %s" % (type(e).__name__, str(e)[:200]))
    known = known_findings(prop)
    viol, undec, knownhit = [], [], []
    for o in ctx.obs:
        if o[2] == VIOLATED:
            (knownhit if (o[0], o[1]) in known else viol).append(o)
        elif o[2] == UNDECIDED:
            undec.append(o)
    for o in knownhit:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, o[1], known[(o[0], o[1])]))
    for o in undec:
        print("UNDECIDED property=%s rule=%s %s (%s)" % (prop, o[0], o[1], o[3]))
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, "%s.violations.txt" % prop)
    wall = round(time.time() - t0, 3)
    rules = {}
    for o in ctx.obs:
        rules.setdefault(o[0], []).append({"construct": o[1], "verdict": o[2], "detail": o[3], "at": o[4]})
    cov = {
        "explanation": "Obligations decided from the abstract summaries of the listed functions (guarded values, heap effects, raised conditions); 'undecided' obligations are reported and prove nothing.",
        "obligations": len(ctx.obs),
        "holds": sum(1 for o in ctx.obs if o[2] == HOLDS),
        "undecided": len(undec),
        "violated": len(viol),
        "known_findings": len(knownhit),
        "modules_parsed": len([m for m in prog.modules if not m.startswith("vspec")]),
        "functions_analysed": sorted(ctx.analysed),
        "functions_analysed_count": len(ctx.analysed),
        "counts": ctx.counts,
        "rules": rules,
    }
    ev = {
        "property": prop,
        "tier": "thorough" if tier == "thorough" else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "wall_s": wall,
        "violations": len(viol),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print("%s: %d obligations, %d hold, %d undecided, %d violated, %d functions analysed, %.1fs" % (prop, len(ctx.obs), cov["holds"], len(undec), len(viol), len(ctx.analysed), wall))
    if not ctx.obs:
        print("ANALYSIS-BROKEN property=%s no obligation was generated" % prop)
        return 2
    if viol:
        with open(replay, "w") as f:
            for o in viol:
                f.write("rule %s\n  construct %s\n  at %s\n  %s\n\n" % (o[0], o[1], o[4], o[3]))
        for o in viol:
            print("  violated: rule=%s %s [%s] %s" % (o[0], o[1], o[4], o[3]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    return 0


if __name__ == "__main__":
    sys.exit(main())
