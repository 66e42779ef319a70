#!/usr/bin/env python3
"""Decide one property: build both executables from /repo's current tree, explore every harness of the property
symbolically, replay, write evidence.  Usage: check.py PROPERTY [quick|thorough]"""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import kvbuild


def meta(prop):
    """harness annotations:  // @h NAME q=SEC t=SEC [timeout=MS] | bound"""
    hs, notes = [], {"outside": [], "assume": []}
    for line in open(f"{V}/harness/{prop}.cc"):
        m = re.match(r"//\s*@h\s+(\w+)\s+q=(\d+)\s+t=(\d+)(?:\s+timeout=(\d+))?\s*\|\s*(.*)", line)
        if m:
            hs.append({"name": m[1], "q": int(m[2]), "t": int(m[3]), "tmo": int(m[4] or 4000), "bound": m[5].strip()})
        m = re.match(r"//\s*@(outside|assume)\s+(.*)", line)
        if m:
            notes[m[1]].append(m[2].strip())
    return hs, notes


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return r.stdout.decode("utf-8", "replace").split("\n")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:] 
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(f"{V}/evidence/replays", exist_ok=True)
    ev_path = f"{V}/evidence/{prop}.json"
    b = kvbuild.build(prop)
    build_s = time.time() - t0
    hs, notes = meta(prop)
    known = json.load(open(f"{V}/known_findings.json"))["known"]
    known = [k for k in known if k["property"] == prop]
    res, viol, knownhit, fns, conc = [], [], [], set(), set()
    for k in known:  # a recorded, unrepaired defect: show that the listed input still fails
        r = subprocess.run([b["native"], "--replay", k["harness"], k["input"], "0"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 1:
            knownhit.append(k)
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for h in hs:
        if only and h["name"] not in only:
            continue
        out = f"{kvbuild.CACHE}/out.{os.getpid()}.{h['name']}.json"
        cmd = [b["sym"], "--harness", h["name"], "--native", b["native"], "--sites", b["sites"], "--out", out, "--time", str(h["q"] if tier == "quick" else h["t"]),
               "--tier", "0" if tier == "quick" else "1", "--workers", str(kvbuild.NC), "--seed", str(seed), "--timeout-ms", str(h["tmo"])]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            d = json.load(open(out))
            os.remove(out)
        except (OSError, ValueError):
            print(f"explorer failed on {h['name']}: {r.stdout.decode('utf-8', 'replace')[-800:]}")
            sys.exit(3)
        fns.update(d.pop("functions_executed", []))
        br = d.pop("functions_branching_symbolically", {})
        conc.update(d.pop("concretised_at", []))
        d["bound"] = h["bound"]
        if d["complete"] and d["paths_ok_with_assertions"] == 0 and not d["violations"]:
            d["complete"] = False  # no path reached an assertion: nothing was decided
        d["functions_with_symbolic_branches"] = len(br)
        vs = d.pop("violations")
        for v in vs:
            rp = f"{V}/evidence/replays/{prop}-{h['name']}-{len(viol)}.json"
            json.dump({"property": prop, "harness": h["name"], "tier": tier, "input_hex": v["input"], "input_before_hex": v.get("before", ""), "failure": v["native_msg"], "symbolic_run": v["sym_msg"],
                       "rerun": f"{b['native']} --replay {h['name']} {v['input']} {'0' if tier == 'quick' else '1'} {v.get('before', '')}   (after: python3 {V}/kvbuild.py {prop})"}, open(rp, "w"), indent=1)
            viol.append({"harness": h["name"], "input": v["input"], "what": v["native_msg"], "replay": rp})
        d["mismatch_list"] = d["mismatch_list"][:2]
        d["spurious_list"] = d["spurious_list"][:2]
        res.append(d)
        if os.environ.get("KV_VERBOSE"):
            print(f"  {h['name']:24s} complete={d['complete']} paths={d['paths']} ok+assert={d['paths_ok_with_assertions']} q={d['queries']} unk={d['unknown']} {d['wall_s']}s viol={len(vs)} spur={d['spurious']} mis={d['model_mismatch']} div={d['diverged']} cap={d['enum_capped']} tmo={d['timeouts']} left={d['queue_left']}")
            for v in vs[:2]:
                print("     VIOL", v["input"], v["native_msg"])
            for v in d["mismatch_list"][:2]:
                print("     MISM", v["input"], v["native_msg"], v["sym_msg"], v["native_status"], v["sym_status"])
            for v in d["spurious_list"][:2]:
                print("     SPUR", v["input"], v["sym_msg"])
    dem = sorted({x for x in demangle(sorted(fns)) if re.search(r"\bkml\w+::", x) and not re.search(r"^(void )?(std::|boost::)", x)})
    inc = [d["harness"] for d in res if not d["complete"]]
    S = lambda k: sum(d[k] for d in res)
    done = len(res) - len(inc)
    cov = {
        "explanation": f"Concolic symbolic execution of libkml's LLVM bitcode (regenerated from /repo on this run). {done} of {len(res)} harnesses were explored to exhaustion: for these, every feasible path within the stated bound was executed and every assertion negation on every path was refuted by the solver. "
                       + (f"Not exhausted within the budget (explored part only): {', '.join(inc)}. " if inc else "")
                       + "Every explored path was also run, with its solver-produced input, in a native AddressSanitizer build against the real libraries.",
        "exhaustive": not inc,
        "harnesses": res,
        "paths": S("paths"), "paths_reaching_assertions": S("paths_ok_with_assertions"), "assertions_evaluated": S("assertions_evaluated"),
        "solver": "z3 (C API)", "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"), "solver_s": round(S("solver_s"), 2),
        "native_replays": S("native_replays"), "model_mismatches": S("model_mismatch"), "spurious_counterexamples": S("spurious"),
        "functions_encoded_total": len(fns), "libkml_functions_encoded": dem[:160], "libkml_functions_encoded_count": len(dem),
        "operands_enumerated_at": sorted(conc)[:20],
        "outside_the_claim": notes["outside"], "build_s": round(build_s, 1),
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 1),
          "assumptions": notes["assume"] + ["compiled -O1 bitcode of clang 18 represents the source", "models in /verif/engine/models*.cc stand for libc/iostream number formatting, expat and uriparser; compared with the real libraries on every explored path"],
          "violations": len(viol)}
    cov["violations_found"] = [{"what": v["what"], "replay": v["replay"]} for v in viol]
    if knownhit:
        cov["known_findings"] = [k["what"] for k in knownhit]
    json.dump(ev, open(ev_path, "w"), indent=1)
    for v in viol:
        print(f"{v['harness']}: {v['what']}")
    seen = set()
    for v in viol:
        if v["harness"] in seen:
            continue
        seen.add(v["harness"])
        print(f"VIOLATION property={prop} replay={v['replay']}")
    print(f"{prop}: {done}/{len(res)} harnesses exhausted, {cov['paths']} paths, {cov['queries']} queries, {ev['wall_s']} s" + ("" if viol else ", no violation"))
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    try:
        main()
    except kvbuild.BuildError as e:
        print("build failed:", e)
        sys.exit(3)
