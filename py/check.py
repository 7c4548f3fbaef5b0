"""./check ID [--tier quick|thorough] [--replay FILE]: decide one property.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the machinery itself could not do its job (build failure, ...)."""
import argparse, hashlib, json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, run, props


def harness_bin(name, variant="asan"):
    h = props.HARNESS.get(name, {})
    return build.harness(variant, name if variant == "asan" else name, h.get("srcs", [name + ".cc"]), app=h.get("app", False),
                         wrap=h.get("wrap", True), core=h.get("core", ("h", "vt", "fakel0")), ldextra=h.get("ld", ()), defs=h.get("defs", ()))


def save_replay(prop, v, rdir):
    os.makedirs(rdir, exist_ok=True)
    j = dict(v, property=prop)
    name = "%s-%s.json" % (prop, hashlib.sha1((v["key"] + str(v.get("case"))).encode()).hexdigest()[:10])
    p = os.path.join(rdir, name)
    json.dump(j, open(p, "w"), indent=1)
    return p


def do_replay(path):
    j = json.load(open(path))
    P = props.BY_ID[j["property"]]
    if j.get("py"):
        part = [p for p in P["parts"] if getattr(p, "name", None) == j["py"]][0]
        r = part.replay(j)
        hit = [v for v in r.viol if v["key"] == j["key"]]
    else:
        part = [p for p in P["parts"] if isinstance(p, props.Cases) and p.harness == j["harness"] and p.mode == j["mode"] and p.variant == j.get("variant", "asan") and list(p.extra) == j.get("extra", [])][0]
        b = harness_bin(part.harness, part.variant)
        r = part.run_one(b, j["case"], j["seed"])
        hit = [v for v in r.viol if v["key"] == j["key"]] or r.viol
    for v in r.viol:
        print("%s: %s" % (v["key"], v["detail"]))
    if hit:
        print("VIOLATION property=%s replay=%s" % (j["property"], path))
        return 1
    print("not reproduced")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--part")
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    tier = "thorough" if a.tier == "thorough" else "quick"
    P = props.BY_ID[a.prop]
    t0 = time.time()
    tot = run.Result()
    known = run.known(a.prop)
    missing = []
    viol, seen_known = [], {}
    for part in P["parts"]:
        if a.part and a.part != part.label():
            continue
        r = part.run(tier, harness_bin)
        for v in r.viol:
            v.setdefault("part", part.label())
        tot.merge(r)
        bad = False
        for v in r.viol:
            k = run.norm(v["key"])
            if k in known:
                seen_known.setdefault(k, v)
            else:
                viol.append(v)
                bad = True
        if not bad:
            for c, mn in part.require.items():
                if r.counters.get(c, 0) < mn:
                    missing.append("%s: counter %s=%d < %d" % (part.label(), c, r.counters.get(c, 0), mn))
    wall = time.time() - t0
    ev = dict(property=a.prop, tier=tier, seed=run.seed(), level=P.get("level", "exploration"),
              coverage=dict(evaluations=tot.cases, distinct_nontrivial=len(tot.sigs), rule=P["rule"],
                            samples=tot.samples[:12] or ["(none)"], observed=dict(sorted(tot.counters.items())), notes=tot.notes[:20]),
              assumptions=P.get("assumptions", []), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(run.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(run.VERIF, "evidence", a.prop + ".json"), "w"), indent=1, default=str)
    print("%s [%s] cases=%d distinct=%d wall=%.1fs" % (a.prop, tier, tot.cases, len(tot.sigs), wall))
    for k, v in sorted(tot.counters.items()):
        print("  observed %-40s %d" % (k, v))
    for n in tot.notes:
        print("  note: " + n)
    for k in known:
        # a listed finding is stated whether or not this run's samples hit it
        print("KNOWN-FINDING: property=%s %s: %s%s" % (a.prop, k, known[k], "" if k in seen_known else " (not reached in this run)"))
    if viol:
        keys = {}
        for v in viol:
            keys.setdefault(v["key"], []).append(v)
        for k, vs in keys.items():
            p = save_replay(a.prop, vs[0], os.path.join(run.VERIF, "replays"))
            print("violation %s (%d cases): %s" % (k, len(vs), vs[0]["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (a.prop, p))
        return 1
    if missing:
        print("check inconclusive, workload did not reach what it must: " + "; ".join(missing))
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except (build.BuildError, run.HarnessError) as e:
        print("ERROR: %s" % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
