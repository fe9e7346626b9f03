#!/opt/veriftools/pyvenv/bin/python
"""python3-vt /verif/run.py PROPERTY [--thorough] : decide one property by
solver-based symbolic execution of /repo's current source."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import argparse, json, subprocess, time, platform

REPLAY_PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def load_known(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("fixed:") or line.startswith("#"):
                continue
            e = json.loads(line)
            if e["property"] == prop:
                out[e["id"]] = e
    return out


def replay(prop, hspec, inputs, label, timeout=60):
    """Re-run the failing case against the real code in a fresh interpreter."""
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", "replay_%s.json" % prop)
    with open(path, "w") as f:
        json.dump({"property": prop, "harness": hspec, "inputs": inputs, "label": label}, f, indent=1)
    env = dict(os.environ)
    env.pop("PYTHONHASHSEED", None)
    try:
        r = subprocess.run([REPLAY_PY, os.path.join(HERE, "replay.py"), path], capture_output=True, text=True,
                           timeout=timeout, env=env)
        return path, r.returncode, (r.stdout + r.stderr)[-3000:]
    except subprocess.TimeoutExpired:
        return path, "timeout", "no answer within %d s" % timeout


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--only", help="substring of harness name")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VP_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit 2 unless everything within the bounds was decided")
    a = ap.parse_args()
    tier = "thorough" if (a.thorough or os.environ.get("VERIF_TIER") == "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from pysym import loader, explorer, model
    import checks
    spec = checks.CHECKS[a.prop]
    hs = []
    for h in spec["harnesses"]:
        params = dict(h.get("quick", {}))
        if tier == "thorough":
            params.update(h.get("thorough", {}))
        elif h.get("thorough_only"):
            continue
        hs.append(explorer.Harness(h["mod"], h["fn"], params, h.get("must", ()), h.get("opts")))
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    known = load_known(a.prop)
    symc, plainc = loader.Copy(True), loader.Copy(False)
    budget = a.budget or (600 if tier == "quick" else 840)
    ev_path = os.path.join(HERE, "evidence", a.prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    try:
        res = explorer.explore(hs, symc, plainc, known, a.jobs, budget, a.v or bool(os.environ.get("VP_VERBOSE")), seed)
    except Exception:
        import traceback
        traceback.print_exc()
        # the code under test failed to load: is the real package loadable at all?
        r = subprocess.run([REPLAY_PY, "-c", "import sys; sys.path.insert(0, %r); import v8serialize" % loader.SRC])
        print("ENGINE-ERROR property=%s could not load the code" % a.prop)
        sys.exit(2)
    st = res.stats
    # ---- hangs
    confirmed = []
    for hi, inputs, label, info in res.violations:
        h = hs[hi]
        path, rc, out = replay(a.prop, {"mod": h.mod, "fn": h.fn, "params": h.params}, inputs, label)
        if rc == 1:
            confirmed.append((h, inputs, label, info, path))
            break
        res.errors.append("violation did not reproduce in a fresh interpreter (rc=%r): %s %s %r\n%s" % (rc, h.name, label, inputs, out))
    if not confirmed:
        for hi, inputs, why in res.limits[:4]:
            h = hs[hi]
            path, rc, out = replay(a.prop, {"mod": h.mod, "fn": h.fn, "params": h.params}, inputs, "hang")
            if rc == "timeout":
                confirmed.append((h, inputs, "does not terminate", why, path))
                break
            if rc == 1:
                confirmed.append((h, inputs, "violation", out, path))
                break
            res.errors.append("step limit reached in %s on %r (%s; real run rc=%r)" % (h.name, inputs, why, rc))
    missing = []
    if res.complete:
        for h in hs:
            for m in h.must:
                if (h.name + " :: " + m) not in st.marks:
                    missing.append(h.name + " :: " + m)
    wall = time.time() - t0
    samples = [{"harness": k, "inputs": {n: v for n, v in list(s[0].items())[:24]}, "decisions": s[1]} for k, s in sorted(st.samples.items())[:12]]
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": st.paths, "transitions": st.decisions, "traces_validated_against_impl": st.validated,
            "samples": samples or [{"note": "no path completed"}],
            "exhaustive": bool(res.complete and not missing),
            "paths_per_harness": st.per_h,
            "paths_ok": st.ok, "paths_outside_assumptions": st.assumed, "paths_over_step_limit": st.limit,
            "observations_compared_with_real_run": st.obs_checked,
            "queries_discharged": st.q.queries, "queries_sat": st.q.sat, "queries_unsat": st.q.unsat,
            "queries_answered_from_cache": st.q.cached, "solver_s": round(st.q.solver_s, 3), "slowest_query_s": round(st.q.slow, 3),
            "functions_encoded": sorted(f for f in st.funcs if f.startswith("v8serialize")),
            "functions_encoded_count": sum(1 for f in st.funcs if f.startswith("v8serialize")),
            "bounds": spec.get("bounds", ""), "parameters": {h.name: h.params for h in hs},
            "outside_bounds": spec.get("outside", ""),
            "paths_not_encoded": st.gaps, "not_encoded_samples": st.gap_samples,
            "witnesses": dict(sorted(st.marks.items())),
        },
        "assumptions": ["CPython 3.12 semantics of the modelled builtins (each explored path is re-run on the unmodified code and must agree)",
                        "z3 verdicts"] + list(spec.get("assumptions", [])),
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: paths=%d decisions=%d queries=%d (sat %d, unsat %d, cached %d) solver=%.1fs validated=%d wall=%.1fs%s" % (
        a.prop, tier, st.paths, st.decisions, st.q.queries, st.q.sat, st.q.unsat, st.q.cached, st.q.solver_s, st.validated, wall,
        " COMPLETE" if res.complete and not missing else ""))
    if a.v:
        for k, v in sorted(st.per_h.items()):
            print("   %-50s %d" % (k[:50], v))
        for k, v in sorted(st.conc_sites.items(), key=lambda kv: -kv[1])[:12]:
            print("   concretised %-30s %d" % (k.split("(")[0] + k[k.index(" @ "):], v))
        for k, v in sorted(st.marks.items()):
            print("   witness %-30s %d" % (k.split("(")[0] + k[k.index(" :: "):], v))
    for fid, (hn, inputs, info) in sorted(st.known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, fid, known[fid]["what"]))
    if confirmed:
        h, inputs, label, info, path = confirmed[0]
        print("counterexample in %s: %s (%s)\n  inputs: %r" % (h.name, label, info, inputs))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        sys.exit(1)
    if res.errors or res.timed_out or missing or not res.complete:
        # nothing explored contradicts the property, but part of the space was not decided
        for e in res.errors[:5]:
            print("NOT-DECIDED: " + e)
        for e in st.gap_samples[:5]:
            print("NOT-ENCODED (run concretely only): " + e)
        if res.timed_out:
            print("NOT-DECIDED: budget of %ds used up" % budget)
        for m in missing:
            print("NOT-DECIDED: witness not reached: " + m)
        if a.strict or st.paths == 0:
            sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
