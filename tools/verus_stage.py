"""The proof stage: extracts the functions from /repo's current source, joins them with the
contracts and lets Verus discharge every obligation."""
import concurrent.futures, fcntl, hashlib, json, os, re, subprocess, sys, time

import vt

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.path.join(ROOT, ".build")
CONTRACTS = os.path.join(ROOT, "contracts")
REPO = os.environ.get("STEIT_DEV_REPO", "/repo")

# Packages: the files of contracts that are verified together, in order.  A package which cannot be
# assembled or compiled after a change of the code does not take the others with it.
PACKAGES = json.load(open(os.path.join(CONTRACTS, "packages.json")))

HEADER = """#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unused_assignments, unreachable_code, non_camel_case_types, unused_must_use)]
#![verifier::loop_isolation(false)]
use vstd::prelude::*;
verus! {
"""
FOOTER = "\nfn main() {}\n} // verus!\n"


class Degraded(Exception):
    pass


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise Degraded("%s took more than %d s" % (cmd[0], timeout))


def clean_env(**kw):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", **kw)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    return env


def build_xv():
    p = sh(["cargo", "build", "--offline", "--locked", "-q"], 600, cwd=os.path.join(ROOT, "xv"), env=clean_env(CARGO_TARGET_DIR=os.path.join(BUILD, "xv")))
    if p.returncode:
        raise Degraded("the extractor does not build: " + p.stderr[-2000:])
    return os.path.join(BUILD, "xv", "debug", "xv")


def expand(what):
    """The macro-expanded source, as the compiler sees it."""
    if what == "repo":
        cwd, args = REPO, ["-p", "steit", "--lib"]
    else:
        cwd, args = os.path.join(ROOT, what), ["--lib"]
    p = sh(["cargo", "+nightly", "rustc", "--offline", "-q"] + args + ["--", "-Zunpretty=expanded"], 600, cwd=cwd,
           env=clean_env(CARGO_TARGET_DIR=os.path.join(BUILD, "expand")))
    if p.returncode:
        raise Degraded("cannot expand %s: %s" % (what, p.stderr[-2000:]))
    return p.stdout


def extract(whats):
    """The items of the crates, after the extraction rules."""
    os.makedirs(BUILD, exist_ok=True)
    items = []
    with open(os.path.join(BUILD, "expand.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        xv = build_xv()
        for w in whats:
            if w == "derive":
                # The procedural macro: its source as it is written (its own quotations stay such).
                cmd = [xv, os.path.join(REPO, "steit-derive", "src", "lib.rs"), "--tree"]
            else:
                src = expand(w)
                path = os.path.join(BUILD, "expanded-%s.rs" % w.replace("/", "_"))
                open(path, "w").write(src)
                cmd = [xv, path]
            p = sh(cmd, 120)
            if p.returncode:
                raise Degraded("the extractor does not accept the source: " + p.stderr[-2000:])
            items += [dict(x, source=w) for x in json.loads(p.stdout)]
    return items


def assemble(pkg, items):
    text = HEADER + "\n".join(open(os.path.join(CONTRACTS, f)).read() for f in PACKAGES[pkg]["files"]) + FOOTER
    a = vt.Assembler([x for x in items if x["source"] in PACKAGES[pkg].get("sources", ["repo"])])
    try:
        out = a.run(text)
    except vt.Missing as e:
        raise Degraded("no longer in the code: %s" % e)
    return a, out


def verus(path, rlimit=None, seed=None, timeout=700, extra=()):
    cmd = ["verus", path, "--multiple-errors", "4", "--output-json", "--no-report-long-running"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    if seed:
        cmd += ["--smt-option", "smt.random_seed=%d" % seed]
    cmd += list(extra) + ["--", "--error-format=json"]
    env = clean_env()
    t = time.time()
    p = sh(cmd, timeout, cwd=os.path.dirname(path), env=env)
    dt = time.time() - t
    try:
        res = json.loads(p.stdout)["verification-results"]
    except (ValueError, KeyError):
        res = None
    diags = []
    for l in p.stderr.split("\n"):
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    return dict(cmd=" ".join(cmd), res=res, diags=diags, secs=dt, stderr=p.stderr)


# Messages of obligations that Verus could not discharge (anything else is not a verdict on the code).
OBLIGATION = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|possible division|"
                        r"decreases not satisfied|possible bit shift|unable to prove|could not prove|possible .*overflow|constructed value may fail|requires not satisfied|cannot show|index.*bounds|unreachable")


def classify(out, run):
    """(failures, problems): failures = dicts with function, props and message."""
    failures, problems = [], []
    for d in run["diags"]:
        if d["level"] != "error" or d["message"].startswith("aborting due to"):
            continue
        spans = d["spans"]
        if not spans or not OBLIGATION.search(d["message"]) or "rlimit" in d["message"].lower():
            problems.append(d["message"] + " @" + ",".join(str(s["line_start"]) for s in spans))
            continue
        fn = None
        for s in sorted(spans, key=lambda s: not s["is_primary"]):
            for f in out.funcs:
                if f["start"] <= s["line_start"] <= f["end"] and not f["decl"] and not f["external"]:
                    fn = f
                    break
            if fn:
                break
        # The function whose body has the failing point: not the one whose clause it is.
        for s in spans:
            lab = s["label"] or ""
            if "at this exit" in lab or "at the end of the function" in lab or "at this loop exit" in lab:
                for f in out.funcs:
                    if f["start"] <= s["line_start"] <= f["end"] and not f["decl"]:
                        fn = f
        if d["message"].startswith("precondition"):
            for s in spans:
                if s["is_primary"]:
                    fn = next((f for f in out.funcs if f["start"] <= s["line_start"] <= f["end"] and not f["decl"]), None)
        if fn is None:
            problems.append("lemma: " + d["message"] + " @" + ",".join(str(s["line_start"]) for s in spans))
            continue
        tags, clause = None, ""
        for s in spans:
            lab = s["label"] or ""
            if "failed this" in lab or "failed precondition" in lab or s["is_primary"]:
                t = out.tags.get(s["line_start"])
                if "failed" in lab:
                    clause = out.lines[s["line_start"] - 1].strip()
                if t:
                    tags = t
        failures.append(dict(function=fn["key"], props=tags or fn["props"], message=d["message"], clause=clause, key=fn["key"],
                             where=[out.lines[s["line_start"] - 1].strip()[:160] for s in spans]))
    return failures, problems


def body_hash(f):
    return hashlib.sha256(json.dumps([f.get("sig"), f.get("text")]).encode()).hexdigest()[:16]


def recorded():
    try:
        return json.load(open(os.path.join(CONTRACTS, "recorded.json")))
    except OSError:
        return {}


def shapes(out, pkg):
    """Skeleton of each function: what must be as recorded for its proof to be expected to go through."""
    r = {}
    for f in out.funcs:
        if f["shape"] is None:
            continue
        r.setdefault(f["key"], dict(loops=f["shape"]["loop_kinds"], calls=f["shape"]["calls"]))
        if pkg == "gen":
            # What is written is made of these.
            r[f["key"]].setdefault("texts", f["shape"]["texts"])
    return r


# Functions whose specification says all about them: a proof does not get weaker when they are called.
EXACT = set("""min max saturating_add saturating_sub wrapping_add wrapping_sub wrapping_mul checked_add checked_sub checked_mul
is_some is_none is_ok is_err ok unwrap_or ok_or or replace take clamp is_negative is_power_of_two
len is_empty first last get truncate clear split_off swap reverse extend_from_slice reserve with_capacity as_slice
swap_remove drop""".split())


def same_skeleton(rec, key, cur):
    if key not in rec or key not in cur:
        return False
    return rec[key]["loops"] == cur[key]["loops"] and rec[key].get("texts") == cur[key].get("texts") and set(cur[key]["calls"]) <= set(rec[key]["calls"]) | EXACT


EXT = re.compile(r"external_body|assume_specification|\badmit\(|\bassume\(|\buninterp\b|external_type_specification|external_fn_specification")


def trusted(out):
    """Every assumption in the verified text that Verus does not check."""
    r = []
    ls = out.lines
    for i, l in enumerate(ls):
        code = l.split("//")[0]
        m = EXT.search(code)
        if not m:
            continue
        j = i
        if m.group(0) in ("external_body", "external_type_specification", "external_fn_specification"):
            while j < len(ls) and not re.search(r"\b(fn|struct|impl|enum)\b", ls[j].split("//")[0].replace("external_fn", "")):
                j += 1
        r.append("%s: %s" % (m.group(0), re.sub(r"\s+", " ", ls[min(j, len(ls) - 1)].strip())[:140]))
    return sorted(set(r))


def smoke(pkg, out, path):
    """Every contract must be satisfiable: with `assert(false)` at its start, each function must fail."""
    lines = list(out.lines)
    marks = {}
    for f in sorted(out.funcs, key=lambda f: -f["start"]):
        if f["decl"] or f["external"] or f["shape"] is None:
            continue
        for k in range(f["start"], f["end"]):
            if lines[k - 1] == "{":
                lines.insert(k, "proof { assert(false); }")
                break
    # Line numbers of the inserted assertions.
    text = "\n".join(lines) + "\n"
    want = [i + 1 for i, l in enumerate(text.split("\n")) if l == "proof { assert(false); }"]
    p = path.replace(".rs", "_smoke.rs")
    open(p, "w").write(text)
    run = verus(p, timeout=700)
    bad = set()
    for d in run["diags"]:
        if d["level"] == "error":
            for s in d["spans"]:
                bad.add(s["line_start"])
    vacuous = [w for w in want if w not in bad]
    tl = text.split("\n")
    return dict(asserted=len(want), failed_as_they_must=len(want) - len(vacuous), vacuous=[next((tl[k] for k in range(w - 1, 0, -1) if " fn " in " " + tl[k]), "?")[:120] for w in vacuous])


def run_package(pkg, items, prop, tier):
    a, out = assemble(pkg, items)
    d = os.path.join(BUILD, "verus", prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pkg + ".rs")
    open(path, "w").write(out.text())
    r = verus(path, rlimit=PACKAGES[pkg].get("rlimit"))
    failures, problems = classify(out, r)
    if r["res"] is None or (not r["res"]["success"] and not failures):
        raise Degraded("; ".join(problems)[:1500] or r["stderr"][-1500:])
    rec = recorded().get(pkg, {})
    if failures:
        # Only a failure which another run of the solver repeats is one.
        r2 = verus(path, rlimit=3 * (PACKAGES[pkg].get("rlimit") or 10), seed=7)
        f2, p2 = classify(out, r2)
        k2 = {(f["function"], f["clause"], f["message"]) for f in f2}
        failures = [f for f in failures if (f["function"], f["clause"], f["message"]) in k2]
        r["secs"] += r2["secs"]
        if r2["res"] and r2["res"]["success"]:
            r, problems = r2, []
    cur = shapes(out, pkg)
    for f in failures:
        f["expected"] = f["key"] not in a.dropped and same_skeleton(rec.get("shapes", {}), f["key"], cur)
    n = len([1 for f in out.funcs if not f["decl"] and not f["external"]])
    if r["res"]["success"] and r["res"]["verified"] < rec.get("verified", 0) * 0.98:
        raise Degraded("only %d obligations where %d are recorded" % (r["res"]["verified"], rec["verified"]))
    return dict(pkg=pkg, out=out, asm=a, run=r, failures=failures, problems=problems, path=path, functions=n)


def run(prop, tier):
    pkgs = [p for p in PACKAGES if prop in PACKAGES[p]["props"]]
    if not pkgs:
        return dict(status="none")
    whats = []
    for p in pkgs:
        for w in PACKAGES[p].get("sources", ["repo"]):
            if w not in whats:
                whats.append(w)
    t0 = time.time()
    try:
        items = extract(whats)
    except Degraded as e:
        return dict(status="degraded", why=str(e)[:1500], trusted_base=[])
    results, why = [], []
    def one(p):
        try:
            return run_package(p, items, prop, tier), None
        except Degraded as e:
            return None, "%s: %s" % (p, e)

    with concurrent.futures.ThreadPoolExecutor(len(pkgs)) as pool:
        for r, e in pool.map(one, pkgs):
            (results if r else why).append(r or e)
    failed, output, skipped = [], [], []
    for r in results:
        for f in r["failures"]:
            name = "%s: %s%s [%s]" % (f["function"], f["message"], (" `%s`" % f["clause"]) if f["clause"] else "", ",".join(f["props"]))
            if prop in f["props"] and f["expected"]:
                failed.append(name)
                output += f["where"]
            else:
                skipped.append(name)
        why += ["%s: %s" % (r["pkg"], x) for x in r["problems"]]
    tb = sorted(set(x for r in results for x in trusted(r["out"])))
    st = "proved"
    if failed:
        st = "failed"
    elif why or skipped or not results:
        st = "degraded"
    under = sorted(set(f["key"] for r in results for f in r["out"].funcs if prop in f["props"] and f["shape"] is not None and not f["decl"]))
    clauses = sum(1 for r in results for l, t in r["out"].tags.items() if prop in t)
    res = dict(
        status=st, failed=failed, output="\n".join(output),
        checker_cmd="; ".join(r["run"]["cmd"] for r in results),
        obligations=sum(r["run"]["res"]["verified"] + r["run"]["res"]["errors"] for r in results),
        discharged=sum(r["run"]["res"]["verified"] for r in results),
        back_end="Verus 0.2026.09.13 with its Z3",
        packages={r["pkg"]: dict(functions_from_repo=r["functions"], verified=r["run"]["res"]["verified"], errors=r["run"]["res"]["errors"], seconds=round(r["run"]["secs"], 1)) for r in results},
        functions_under_contract=under, clauses_of_this_property=clauses,
        extraction_rules_used=sorted(set(x for r in results for x in r["asm"].rules)),
        bodies_without_contract=sorted(set(x for r in results for x in r["asm"].unspecified)),
        not_extracted=sorted(set(x for r in results for x in r["asm"].skipped)),
        trusted_base=tb, proof_seconds=round(time.time() - t0, 1),
    )
    if why:
        res["why"] = why[:10]
    if skipped:
        res["undischarged_elsewhere"] = skipped[:20]
    if tier == "thorough" and st == "proved":
        res["smoke"] = {r["pkg"]: smoke(r["pkg"], r["out"], r["path"]) for r in results}
    return res


def record():
    """Writes contracts/recorded.json (development helper)."""
    whats = []
    for p in PACKAGES.values():
        for w in p.get("sources", ["repo"]):
            if w not in whats:
                whats.append(w)
    items = extract(whats)
    rec = {}
    for p in PACKAGES:
        a, out = assemble(p, items)
        if a.dropped:
            raise SystemExit("no such place: %s" % sorted(a.dropped))
        d = os.path.join(BUILD, "verus", "record")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, p + ".rs")
        open(path, "w").write(out.text())
        r = verus(path, rlimit=PACKAGES[p].get("rlimit"))
        print(p, r["res"], round(r["secs"], 1), classify(out, r))
        rec[p] = dict(verified=r["res"]["verified"], shapes=shapes(out, p))
        if "--smoke" in sys.argv:
            print(smoke(p, out, path))
    json.dump(rec, open(os.path.join(CONTRACTS, "recorded.json"), "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    if sys.argv[1] == "record":
        record()
    else:
        r = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
        print(json.dumps(r, indent=1))
