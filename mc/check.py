"""
python -m mc.check C01 [--tier quick|thorough] [--replay FILE] [--only SCENARIO]
"""

import argparse, importlib, io, json, os, re, shutil, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    """
    Keys and descriptions of the findings listed for the property.
    """
    result = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    result[m.group(2)] = m.group(3).strip()
    return result


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--stats", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"): args.tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError: seed = 0
    t0 = time.time()
    out = sys.stdout
    from . import explore, world
    mod = importlib.import_module("mc.{}".format(args.prop.lower()))
    known = known_findings(args.prop)
    scenarios = mod.scenarios(args.tier, seed)
    if args.replay:
        return replay(mod, args, known)
    if args.only:
        scenarios = [s for s in scenarios if re.search(args.only, s[0])]
    limit = 600 if args.tier == "quick" else 780
    limit = float(os.environ.get("MC_LIMIT", limit))
    # What the code under test prints is not ours
    sys.stdout = io.StringIO() if not args.stats else sys.stdout
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    res = explore.explore(
        scenarios, seed, t0 + limit, known=frozenset(known), workers=args.workers)
    sys.stdout = out
    wall = time.time() - t0
    coverage = {
        "states": len(res.states),
        "transitions": res.transitions,
        "traces_validated_against_impl": res.executions,
        "scenarios": len(scenarios),
        "distinct_observation_logs": len(res.outcomes),
        "longest_execution_in_decisions": res.maxdepth,
        "executions_run_twice_and_compared": res.replayed,
        "covered": {str(k): v for k, v in sorted(res.marks.items(), key=str)},
        "bounds": mod.BOUNDS[args.tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        "exhaustive": not (res.capped or res.violations or res.errors or args.only),
        "samples": res.samples[:3],
    }
    evidence = {
        "property": args.prop, "tier": args.tier, "seed": seed,
        "level": "model_checking", "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(res.violations),
    }
    path = os.path.join(VERIF, "evidence")
    if not os.path.isdir(path): os.makedirs(path)
    with open(os.path.join(path, args.prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)
    print("{} {}: {} scenarios, {} executions, {} transitions, {} states, "
          "{} distinct outcomes, {:.1f} s{}".format(
              args.prop, args.tier, len(scenarios), res.executions,
              res.transitions, len(res.states), len(res.outcomes), wall,
              ", CAPPED (not exhaustive)" if res.capped else ""))
    if args.stats:
        print(json.dumps(coverage["covered"], indent=1))
    for key in sorted(res.findings):
        print("KNOWN-FINDING: property={} {}".format(args.prop, known[key]))
    if res.violations:
        name, trace, text, events = min(res.violations, key=lambda v: len(v[1]))
        path = os.path.join(path, "{}.violation.json".format(args.prop))
        with open(path, "w") as fh:
            json.dump({
                "property": args.prop, "tier": args.tier, "seed": seed,
                "scenario": name, "decisions": trace, "violation": text,
                "observations": events}, fh, indent=1, default=str)
        print(text)
        print("scenario: {}; decisions: {}".format(
            name, [(x[0], x[2]) for x in trace]))
        print("VIOLATION property={} replay={}".format(args.prop, path))
        return 1
    if res.errors:
        name, trace, text = res.errors[0]
        print("ERROR of the check in scenario {} after {}:\n{}".format(
            name, [(x[0], x[2]) for x in trace], text))
        return 2
    if not res.executions:
        print("ERROR of the check: nothing explored")
        return 2
    need = set(getattr(mod, "MUST_COVER", {}).get(args.tier, ())) \
        if isinstance(getattr(mod, "MUST_COVER", None), dict) \
        else set(getattr(mod, "MUST_COVER", ()))
    missing = need - set(res.marks)
    if missing and not args.only and not res.capped:
        print("ERROR of the check: vacuous, never covered {}".format(sorted(missing)))
        return 2
    return 0


def replay(mod, args, known):
    from . import explore
    with open(args.replay) as fh: r = json.load(fh)
    for name, run, params, opts in mod.scenarios(r["tier"], r["seed"]):
        if name == r["scenario"]: break
    else:
        print("No scenario", r["scenario"])
        return 2
    print("Replaying", name)
    trace = [tuple(x) for x in r["decisions"]]
    ctx, violation, error = explore.execute(
        run, trace, params, r["seed"], opts.get("bound"), verbose=True,
        known=frozenset(known))
    if error:
        print(error)
        return 2
    if violation:
        print(violation)
        print("VIOLATION property={} replay={}".format(args.prop, args.replay))
        return 1
    print("No violation")
    return 0


if __name__ == '__main__':
    # All temporary files of this process and its workers go here
    scratch = tempfile.mkdtemp(prefix="mc-")
    tempfile.tempdir = scratch
    try: code = main()
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
