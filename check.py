#!/usr/bin/env python3
"""Decides one property: `check.py C05 [quick|thorough]`.  See DESIGN.md."""
import json, os, subprocess, sys, time, fcntl, threading, glob, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, os.path.join(HERE, "tools"))

SHARDS = 6


def env_int(k, d):
    try:
        return int(os.environ.get(k, d))
    except ValueError:
        return d


def build_harness(thorough, prop=None):
    """Builds the native harness against /repo's current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "harness.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "harness"), CARGO_NET_OFFLINE="true")
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
            env.pop(k, None)
        cmd = ["cargo", "build", "--offline", "--locked", "-q"] + (["--release"] if thorough else []) + (["--features", "cs"] if prop == "C20" else [])
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout[-6000:])
            print("the native harness does not build against /repo")
            return None
    return os.path.join(BUILD, "harness", "release" if thorough else "debug", "wit")


def witness(prop, seed, tier, secs, wit):
    """Searches for an input on which the real code breaks the property (bounded)."""
    out = os.path.join(BUILD, "out", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    procs = []
    for i in range(SHARDS):
        cmd = [wit, prop, "--seed", str(seed), "--tier", tier, "--secs", str(secs), "--shard", "%d/%d" % (i, SHARDS),
               "--out", "%s/%d.json" % (out, i), "--progress", "%s/%d.progress" % (out, i)]
        procs.append(subprocess.Popen(cmd, stdout=open("%s/%d.log" % (out, i), "w"), stderr=subprocess.STDOUT))
    res = dict(evaluations=0, distinct_nontrivial=0, samples=[], families=0, failure=None, secs=secs, processes=SHARDS)
    for i, p in enumerate(procs):
        rc = p.wait()
        try:
            progress = open("%s/%d.progress" % (out, i)).read().strip()
        except OSError:
            progress = ""
        if rc in (0, 1):
            d = json.load(open("%s/%d.json" % (out, i)))
            res["evaluations"] += d["evaluations"]
            res["distinct_nontrivial"] += d["distinct_nontrivial"]
            res["families"] = max(res["families"], d["families"] if isinstance(d["families"], int) else len(d["families"]))
            res["samples"] += d["samples"][:2]
            if d["failure"] and not res["failure"]:
                res["failure"] = d["failure"]
        elif progress:
            what = "hangs" if rc == 9 else "process died with status %d (abort, out of memory or stack overflow)" % rc
            fam, _, idx = progress.rpartition(":")
            res["failure"] = res["failure"] or dict(family=fam, index=int(idx) if idx.isdigit() else idx, what=what)
        else:
            print("witness process %d ended with status %d before its first case" % (i, rc))
            print(open("%s/%d.log" % (out, i)).read()[-2000:])
            res["broken"] = True
    res["samples"] = res["samples"][:6]
    return res


def known_findings(prop, wit):
    """Prints the recorded findings of this property which still fail as recorded."""
    for line in open(os.path.join(HERE, "known-findings.txt")):
        line = line.strip()
        if not line.startswith("finding: "):
            continue
        head, _, what = line[len("finding: "):].partition(" -- ")
        f = dict(x.split("=", 1) for x in head.split())
        if f["property"] != prop:
            continue
        if subprocess.run([wit, prop, "--finding", f["id"]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 3:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = env_int("VERIF_SEED", 1)
    thorough = tier == "thorough"
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)

    proof = {}

    def prove():
        try:
            import verus_stage
            proof.update(verus_stage.run(prop, tier))
        except ImportError:
            pass
        except Exception as e:  # a fault of the machinery, never of the code under test
            import traceback
            traceback.print_exc()
            proof.update(status="unavailable", why="%s: %s" % (type(e).__name__, e))

    th = threading.Thread(target=prove)
    th.start()

    secs = 240 if thorough else 45
    if prop == "C21":
        # The input is a program: the compiler itself is run on it.
        import defs
        wit = os.path.join(HERE, "tools", "defs.py")
        w = defs.search(seed, tier, secs)
    else:
        wit = build_harness(thorough, prop)
        if wit is None:
            th.join()
            return 2
        w = witness(prop, seed, tier, secs, wit)
    th.join()
    if prop != "C21":
        known_findings(prop, wit)

    replay = os.path.join(EVID, prop + ".replay.json")
    if os.path.exists(replay):
        os.remove(replay)
    verdict = 0
    line = None
    if w["failure"]:
        f = w["failure"]
        case = "%s:%s" % (f["family"], f["index"])
        json.dump(dict(property=prop, kind="failing-input", case=case, seed=seed, what=f["what"],
                       rerun="%s %s --seed %d --tier %s --case '%s'" % (wit, prop, seed, tier, case), input=f.get("input"),
                       failed_obligations=proof.get("failed", []), verifier_output=proof.get("output", "")), open(replay, "w"), indent=1)
        print("%s fails on the real code, case %s: %s" % (prop, case, f["what"]))
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
        verdict = 1
    elif proof.get("status") == "failed":
        json.dump(dict(property=prop, kind="failed-obligation", failed_obligations=proof["failed"],
                       rerun=proof.get("checker_cmd"), verifier_output=proof.get("output", "")), open(replay, "w"), indent=1)
        for o in proof["failed"]:
            print("obligation not discharged: %s" % o)
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
        verdict = 1

    proved = proof.get("status") == "proved"
    cov = {}
    if proof:
        cov.update({k: proof[k] for k in proof if k not in ("status", "output", "failed")})
        cov["proof_status"] = proof.get("status")
    bounded = dict(label="bounded, not counted as proved", evaluations=w["evaluations"], distinct_nontrivial=w["distinct_nontrivial"],
                   families=w["families"], seconds_per_process=w["secs"], processes=w["processes"])
    cov["bounded_witness_search"] = bounded
    cov["evaluations"] = w["evaluations"]
    cov["distinct_nontrivial"] = w["distinct_nontrivial"]
    cov["rule"] = ("Seeded random invalid definitions, each given to the compiler with the real procedural macro; non-trivial: distinct definitions." if prop == "C21" else
                   "Seeded random cases of the native harness (families x indices), run on the real crate; non-trivial: distinct inputs that reached the property's oracle.")
    cov["samples"] = w["samples"] or ["(none)"]
    ev = dict(property=prop, tier=tier, seed=seed, level="proof" if proved else "exploration", coverage=cov,
              assumptions=proof.get("trusted_base", []) if proof else [], wall_s=round(time.time() - t0, 2), violations=verdict)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    if w.get("broken") and verdict == 0:
        return 2
    print("%s: proof %s, bounded search %d cases, %.0f s" % (prop, proof.get("status", "none"), w["evaluations"], time.time() - t0))
    if line:
        print(line)
    return verdict


if __name__ == "__main__":
    sys.exit(main())
