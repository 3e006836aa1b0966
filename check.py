#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Compiles the program from the current tree to on-chain bytecode, runs every scenario of the
property through the symbolic executor (engine/), replays every counterexample and a sample of
explored paths on the compiled program (replay/), and writes evidence/PROPERTY.json.

exit 0: the property held on everything explored
exit 1: VIOLATION line, counterexample reproduced on the compiled program
exit 2: the check itself failed (build error, or model and program disagree)
"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = f"{HERE}/engine/target/release/sbpfsym"
REPLAY = f"{HERE}/replay/target/release/wrapreplay"
sys.path.insert(0, HERE)
import claims  # noqa: E402

T0 = time.time()


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


def die(msg):
    print(f"CHECK-ERROR: {msg}", flush=True)
    sys.exit(2)


def ensure_tools():
    for path, d in ((ENGINE, "engine"), (REPLAY, "replay")):
        if not os.path.exists(path):
            r = sh(["cargo", "build", "--release", "--offline"], cwd=f"{HERE}/{d}",
                   env={**os.environ, "RUSTC_WRAPPER": ""})
            if r.returncode:
                die(f"building {d}: {r.stderr[-2000:]}")


def build_elf(work, name="program"):
    out = f"{work}/{name}.so"
    r = sh(["bash", f"{HERE}/tools/build_elf.sh", out] + ([] if name == "program" else [name]))
    if r.returncode or not os.path.exists(out):
        die(f"the program does not compile to bytecode:\n{r.stderr[-3000:]}")
    return out


def run_scenario(elf, name, prop, work, wall):
    out = f"{work}/{name}.json"
    t = time.time()
    try:
        r = sh([ENGINE, "run", elf, name, prop, out, str(int(wall))], timeout=wall + 120)
    except subprocess.TimeoutExpired:
        return {"scenario": name, "timeout": True, "wall_s": time.time() - t}
    if r.returncode or not os.path.exists(out):
        return {"scenario": name, "error": f"engine exited with {r.returncode}: {r.stderr[-600:]}"}
    return json.load(open(out))


def replay(elf, cases, work, tag):
    if not cases:
        return []
    cin, cout = f"{work}/{tag}.in.json", f"{work}/{tag}.out.json"
    json.dump(cases, open(cin, "w"))
    r = sh([REPLAY, elf, f"{REPO}/program/tests/fixtures", cin, cout], timeout=600)
    if r.returncode or not os.path.exists(cout):
        return [{"error": r.stderr[-800:]} for _ in cases]
    return json.load(open(cout))


def confirmed(case, got):
    if got.get("error"):
        return False
    if bool(got["ok"]) != bool(case["expect"]["ok"]):
        return False
    j = case["judge"]
    if j == "state":
        return got["state_agrees"]
    if j == "calls":
        return got["calls_agree"]
    return True


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_BUDGET_S", "600" if tier == "quick" else "7200"))
    claim = claims.CLAIMS[prop]
    os.makedirs(f"{HERE}/work", exist_ok=True)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    ensure_tools()
    work = tempfile.mkdtemp(prefix=f"run-{prop}-", dir=f"{HERE}/work")
    try:
        rc = decide(prop, tier, seed, budget, claim, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def known_findings(prop):
    p = f"{HERE}/known_findings.json"
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop and f["status"] == "known"]


def decide(prop, tier, seed, budget, claim, work):
    listing = sh([ENGINE, "list"]).stdout.splitlines()
    jobs = []
    for line in listing:
        name, props, t, w, elf = line.split("\t")
        if prop in props.split(",") and (tier == "thorough" or t == "0"):
            jobs.append((int(w), name, elf))
    if not jobs:
        die(f"no scenario serves {prop}")
    jobs.sort(key=lambda j: (-j[0], j[1]))
    elfs = {e: build_elf(work, e) for e in sorted({j[2] for j in jobs})}
    t_build = time.time() - T0
    known = known_findings(prop)
    reports, viol, unconfirmed, notes, known_hits = [], [], [], [], set()
    samples, traces, disagree = [], 0, []

    def one(j):
        w, name, elf = j
        left = budget - (time.time() - T0)
        if left < 5 or viol:
            return {"scenario": name, "skipped": True}, [], [], elf
        r = run_scenario(elfs[elf], name, prop, work, left)
        fails = r.pop("fails", [])
        wits = r.pop("witnesses", [])
        f = replay(elfs[elf], fails, work, name + ".f")
        w = replay(elfs[elf], wits, work, name + ".w")
        return r, list(zip(fails, f)), list(zip(wits, w)), elf

    with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 8)) as ex:
        for fut in as_completed([ex.submit(one, j) for j in jobs]):
            r, fails, wits, elf = fut.result()
            reports.append(r)
            for c, g in fails:
                if confirmed(c, g):
                    k = next((k for k in known if k["scenario"] == c["scenario"] and k["assertion"] == c["assertion"]
                              and k["result"] == g.get("result", "")), None)
                    if k:
                        known_hits.add(k["what"])
                    else:
                        viol.append((c, g, elf))
                else:
                    unconfirmed.append((c["scenario"], c["assertion"], str(g.get("diffs", g))[:600]))
            for c, g in wits:
                traces += 1
                if not g.get("agrees"):
                    disagree.append((c["scenario"], c["expect"]["label"], str(g.get("diffs", g))[:600]))
                elif len(samples) < 6 and c["expect"]["ok"] and not any(s["scenario"] == c["scenario"] for s in samples):
                    samples.append({"scenario": c["scenario"], "instruction_data": c["ix"][:160],
                                    "accounts": [{"name": a["name"], "signer": a["signer"], "writable": a["writable"],
                                                  "lamports": a["lamports"], "data_len": len(a["data"]) // 2} for a in c["accounts"]],
                                    "predicted": c["expect"]["label"], "executed": g.get("result", "")[:80],
                                    "nested_calls": [x.get("kind", "") if isinstance(x, dict) else "" for x in (c["expect"]["cpis"] or [])]})
            if r.get("error"):
                notes.append(f"{r['scenario']}: {r['error']}")
    errors = list(notes)
    inconc = []
    for r in reports:
        if r.get("skipped") or r.get("timeout"):
            inconc.append(f"{r['scenario']}: out of time")
        for x in r.get("incon", []):
            inconc.append(f"{r['scenario']}: {x}")

    def tot(k):
        return sum(r.get(k, 0) for r in reports)

    if not samples:
        samples = [{"scenario": r["scenario"], "labels": r.get("labels", {})} for r in reports[:3]]
    aid = {}
    for r in reports:
        for a in r.get("assertions", []):
            x = aid.setdefault(a["id"].split("call ")[0] if a["id"].startswith("call ") else a["id"], [0, 0])
            x[0] += a["checked"]
            x[1] += a["held"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("forks"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": traces,
            "samples": samples,
            "explanation": "states: path ends plus branch points with symbolic conditions; transitions: bytecode instructions "
                           "executed symbolically; every path end had the listed assertions decided by the solver for all inputs "
                           "reaching it; traces: path ends whose solver model was executed on the same bytecode in a runtime with the "
                           "real token programs, with result, account state and nested calls compared.",
            "functions_encoded": {
                "unit": "functions and instructions of the bytecode compiled from the current tree, executed symbolically by at least one scenario (largest scenario)",
                "functions": max([r.get("functions_covered", 0) for r in reports] or [0]),
                "instructions": max([r.get("instructions_covered", 0) for r in reports] or [0]),
                "instructions_in_program": max([r.get("instructions_total", 0) for r in reports] or [0]),
                "source": claim["source"],
            },
            "bounds": claim["bounds"],
            "outside": claim["outside"],
            "scenarios": [{k: r.get(k) for k in ("scenario", "paths", "success_paths", "assertion_instances", "failed", "queries")}
                          | {"solver_s": round(r.get("solver_s", 0), 2), "wall_s": round(r.get("wall_s", 0), 1)}
                          for r in sorted(reports, key=lambda r: r["scenario"])][:150],
            "paths": tot("paths"), "success_paths": tot("success_paths"),
            "assertions": [{"assertion": k, "checked_on_paths": v[0], "held": v[1]} for k, v in sorted(aid.items())][:80],
            "assertion_instances": tot("assertion_instances"),
            "decided_by_simplification": tot("by_simplification"),
            "decided_by_solver": tot("by_solver"),
            "solver_queries": tot("queries"), "solver_cached": tot("cached"), "solver_unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 2),
            "solver_max_query_s": round(max([r.get("solver_max_s", 0) for r in reports] or [0]), 2),
            "build_s": round(t_build, 1),
            "inconclusive": inconc[:20], "inconclusive_count": len(inconc),
            "replay_disagreements": len(disagree), "unconfirmed_candidates": len(unconfirmed),
        },
        "assumptions": claims.COMMON_ASSUMPTIONS + claim.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": len(viol),
    }
    p = f"{HERE}/evidence/{prop}.json"
    txt = json.dumps(ev, indent=1)
    if len(txt) > 60000:
        ev["coverage"]["scenarios"] = ev["coverage"]["scenarios"][:40]
        ev["coverage"]["samples"] = ev["coverage"]["samples"][:2]
        txt = json.dumps(ev)
    open(p + ".tmp", "w").write(txt)
    os.replace(p + ".tmp", p)
    print(f"{prop} {tier}: {len(reports)} scenarios, {tot('paths')} paths ({tot('success_paths')} succeed), {tot('assertion_instances')} assertions "
          f"decided ({tot('by_solver')} by solver), {tot('queries')} queries, solver {tot('solver_s'):.1f}s, {traces} paths replayed, wall {time.time()-T0:.1f}s")
    for x in inconc[:10]:
        print("inconclusive:", x)
    for w in sorted(known_hits):
        print(f"KNOWN-FINDING: property={prop} {w}")
    if viol:
        d = f"{HERE}/work/replay"
        os.makedirs(d, exist_ok=True)
        for n, (c, g, elf) in enumerate(viol[:5]):
            path = f"{d}/{prop}-{n}.json"
            json.dump({**c, "executed": g, "elf": elf}, open(path, "w"), indent=1)
            print(f"broken: {c['assertion']} in {c['scenario']} (replayed: {g.get('result','')[:100]})")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    for x in unconfirmed[:10]:
        print("not reproduced:", x)
    for x in disagree[:10]:
        print("model and program disagree:", x)
    for x in errors[:10]:
        print("error:", x)
    if unconfirmed or disagree or errors:
        print(f"CHECK-ERROR: {len(unconfirmed)} candidates not reproduced, {len(disagree)} replay disagreements, {len(errors)} engine errors")
        return 2
    if not tot("paths"):
        print("CHECK-ERROR: nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    main()
