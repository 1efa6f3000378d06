#!/usr/bin/env python3
"""Decides one property: check.py C19

1. builds the contract verifier (gcv) from /verif/gcv and verifies, against the
   contracts in /verif/contracts, every function of /repo's current working tree
   that the property rests on;
2. runs the property's replay harness (bounded, labelled so) on the real code: it
   looks for a concrete failing input and checks the contracts of dependencies
   that the proofs assume;
3. prints the verdict and writes evidence/<id>.json.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the check failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa: E402

ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", HOME=os.environ.get("HOME", "/root"))
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + ENV.get("PATH", "")


def run_gcv(pid, cfg, tmp, thorough, out):
    try:
        b = subprocess.run(["go", "build", "-o", tmp + "/gcv", "."], cwd=VERIF + "/gcv", env=ENV, capture_output=True, text=True, timeout=400)
        if b.returncode != 0:
            out["error"] = "building gcv: " + b.stderr[-2000:]
            return
        out["cmd"] = f"gcv -repo {REPO} -contracts {VERIF}/contracts -prop {pid}"
        args = [tmp + "/gcv", "-repo", REPO, "-contracts", VERIF + "/contracts", "-prop", pid, "-json", tmp + "/gcv.json"]
        args += ["-timeout", "4000", "-budget", "400"] if thorough else ["-budget", str(cfg.get("budget", 200))]
        r = subprocess.run(args, env=ENV, capture_output=True, text=True, timeout=(3000 if thorough else 480))
        out["log"] = r.stdout + r.stderr
        if os.path.exists(tmp + "/gcv.json"):
            out["report"] = json.load(open(tmp + "/gcv.json"))
        else:
            out["error"] = "gcv: " + r.stderr[-2000:]
    except subprocess.TimeoutExpired:
        out["timeout"] = True
    except Exception as e:  # noqa: BLE001
        out["error"] = repr(e)


def run_harness(pid, cfg, tmp, thorough, seed, out):
    out["runs"] = []
    for i, h in enumerate(cfg.get("harness", [])):
        src = os.path.join(VERIF, "replay", h["src"])
        rep = {}
        for f in sorted(os.listdir(src)):
            if f.endswith(".go"):
                rep[f"{REPO}/{h['pkg']}/zz_{f}"] = os.path.join(src, f)
        common = os.path.join(VERIF, "replay", "common")
        if os.path.isdir(common) and not h.get("nocommon"):
            for f in sorted(os.listdir(common)):
                text = open(os.path.join(common, f)).read().replace("package common", "package " + h["package"], 1)
                dst = f"{tmp}/{i}_{f}"
                open(dst, "w").write(text)
                rep[f"{REPO}/{h['pkg']}/zz_{f}"] = dst
        ov = f"{tmp}/overlay{i}.json"
        json.dump({"Replace": rep}, open(ov, "w"))
        stats = f"{tmp}/stats{i}.json"
        scratch = f"{tmp}/scratch{i}"
        os.mkdir(scratch)
        env = dict(ENV, VERIF_SEED=str(seed), VERIF_TIER="thorough" if thorough else "quick", VERIF_STATS=stats, TMPDIR=scratch)
        limit = 2400 if thorough else h.get("timeout", 400)
        cmd = ["go", "test", "-vet=off", "-count=1", f"-timeout={limit}s", "-overlay", ov, "-run", f"^({h['run']})$"]
        if h.get("race"):
            cmd += ["-race"]
            env["GORACE"] = "halt_on_error=1"
        cmd += ["./" + h["pkg"]]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True, errors="replace", timeout=limit + 300)
            res = {"rc": r.returncode, "out": (r.stdout + r.stderr)[-20000:], "full": r.stdout + r.stderr}
        except subprocess.TimeoutExpired as e:
            res = {"rc": -1, "out": "the harness did not end: " + str(e), "full": ""}
        res["cmd"] = " ".join(cmd)
        res["name"] = h["run"]
        res["bound"] = h.get("bound", "")
        res["wall_s"] = round(time.time() - t0, 2)
        if os.path.exists(stats):
            res["counts"] = json.load(open(stats))
        full = res.pop("full")
        res["build_failed"] = "[build failed]" in full or "[setup failed]" in full
        res["failing"] = [l.strip() for l in full.splitlines() if "FAILING INPUT" in l][:5]
        if r_is_fail(res, full):
            m = re.search(r"(WARNING: DATA RACE|panic: .*|fatal error: .*|runtime: .*exceeds.*)", full)
            if m and not res["failing"]:
                res["failing"] = [m.group(1)]
            if not res["failing"]:
                m = re.search(r"--- FAIL: .*", full)
                res["failing"] = [m.group(0) if m else "harness failed"]
        out["runs"].append(res)


def r_is_fail(res, full):
    return res["rc"] != 0 and not res["build_failed"] and "no tests to run" not in full


def main():
    pid = sys.argv[1]
    cfg = PROPS[pid]
    thorough = os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        code = decide(pid, cfg, thorough, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(pid, cfg, thorough, seed, tmp, t0):
    g, h = {}, {}
    ts = [threading.Thread(target=run_gcv, args=(pid, cfg, tmp, thorough, g)), threading.Thread(target=run_harness, args=(pid, cfg, tmp, thorough, seed, h))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    rep = g.get("report") or {}
    funcs = rep.get("functions") or []
    shapes = json.load(open(VERIF + "/contracts/shape.json")) if os.path.exists(VERIF + "/contracts/shape.json") else {}
    failed, undecided, notes = [], [], []
    total = proved = 0
    for f in funcs:
        base = shapes.get(f["func"], [])
        changed = f["func"] in shapes and base != (f.get("shape") or [])
        if changed:
            notes.append(f"{f['func']}: its loops are not the ones the loop contracts were written for ({base} -> {f.get('shape') or []})")
        for o in f.get("obligations") or []:
            total += 1
            if o["status"] == "proved":
                proved += 1
                continue
            e = dict(o, why=o.get("why", ""))
            if o["status"] == "failed" and not changed and not f.get("limit"):
                failed.append(e)
            else:
                undecided.append(e)
        for l in f.get("limit") or []:
            undecided.append({"func": f["func"], "name": "-", "kind": "limit", "why": l, "pos": f.get("pos", "")})
    error = g.get("error") or rep.get("error")
    if g.get("timeout"):
        undecided.append({"func": "-", "name": "-", "kind": "limit", "why": "gcv ran out of time"})
    if error:
        undecided.append({"func": "-", "name": "-", "kind": "limit", "why": error})
    bad = [r for r in h["runs"] if r["failing"]]
    built = [r for r in h["runs"] if not r["build_failed"]]

    known = []
    kf = VERIF + "/known-findings.txt"
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                known.append(m.group(2))

    lines = []
    if "--baseline" in sys.argv:
        for f in funcs:
            shapes[f["func"]] = f.get("shape") or []
        shapes = {k: v for k, v in shapes.items() if v}
        json.dump(shapes, open(VERIF + "/contracts/shape.json", "w"), indent=1, sort_keys=True)
    code = 0
    if not funcs and not error and not g.get("timeout"):
        print(f"{pid}: no obligations were generated")
        code = 2
    if h["runs"] and not built:
        print(f"{pid}: the replay harness does not build:\n" + h["runs"][0]["out"][-3000:])
        code = 2
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    viol = bool(bad or failed)
    if viol:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        rp = f"{VERIF}/evidence/{pid}.replay.txt"
        with open(rp, "w") as w:
            for e in failed:
                w.write(f"OBLIGATION NOT DISCHARGED: {e['func']} {e['kind']} {e['name']} at {e.get('pos','')}\n  contract: {e.get('text','')}\n  solver: {e.get('why','')}\n")
            for e in undecided:
                w.write(f"undecided: {e['func']} {e['kind']} {e['name']} {e.get('why','')}\n")
            for r in bad:
                w.write(f"\nREPLAY ON THE REAL CODE (VERIF_SEED={seed}): {r['cmd']}\n" + "\n".join(r["failing"]) + "\n\n" + r["out"] + "\n")
            if not bad:
                w.write("\nno failing input was found by the bounded replay\n\nverifier output:\n" + g.get("log", ""))
        for e in failed[:10]:
            print(f"failed obligation: {e['func']} {e['name']} ({e['kind']}) [{e.get('pos','')}] {e.get('text','')[:160]}")
        for r in bad:
            for l in r["failing"]:
                print(l[:600])
        lines.append(f"VIOLATION property={pid} replay={rp}" + ("" if bad else " no-failing-input-found"))
        code = 1

    trusted = sorted(rep.get("trusted") or [])
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "proof",
        "coverage": {
            "obligations": total, "discharged": proved,
            "checker_cmd": g.get("cmd", ""),
            "trusted_base": trusted + ["gcv (VC generator, /verif/gcv) and golang.org/x/tools/go/ssa", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2", "Go compiler and runtime"],
            "functions_under_contract": [f["func"] for f in funcs if not f["func"].startswith("lemma:")],
            "lemmas": [f["func"][6:] for f in funcs if f["func"].startswith("lemma:")],
            "inlined_functions": rep.get("inlined") or [],
            "by_back_end": rep.get("by_tool") or {},
            "solver_ms": rep.get("solver_ms", 0), "solver_queries": rep.get("queries", 0),
            "not_discharged": [{"func": e["func"], "name": e["name"], "why": e.get("why", "")[:300]} for e in failed],
            "undecided": [{"func": e["func"], "name": e["name"], "why": e.get("why", "")[:300]} for e in undecided],
            "bounded_replay": [{"test": r["name"], "bound": r["bound"], "counts": r.get("counts", {}), "wall_s": r["wall_s"], "built": not r["build_failed"], "failing": r["failing"]} for r in h["runs"]],
        },
        "assumptions": cfg.get("assumptions", []) + notes,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failed) + len(bad),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid}: {proved} of {total} obligations discharged in {len(funcs)} functions and lemmas, {len(failed)} failed, {len(undecided)} undecided; bounded replay: "
          + ", ".join(f"{r['name']} {'FAILED' if r['failing'] else ('not built' if r['build_failed'] else 'ok')} {r['wall_s']}s" for r in h["runs"]))
    for e in undecided[:10]:
        print(f"undecided: {e['func']} {e['name']} {e.get('why','')[:200]}")
    for l in lines:
        print(l)
    return code


main()
