#!/usr/bin/env python3
"""Decides one property of magnesia: check.py <ID> [--tier quick|thorough].

Builds the harnesses against /repo's current tree, lets the solvers decide every obligation, replays
each counterexample on the compiled code, and writes evidence/<ID>.json.
Exit 0: the property held on everything decided. Exit 1 with a VIOLATION line: it is broken.
Exit 2: the check could not run.
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")

sys.path.insert(0, os.path.join(HERE, "tools"))
from bounds import BOUNDS, ASSUME, ENGINES  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None)
ENV.setdefault("RUSTUP_TOOLCHAIN", "stable")
KANI_ENV = {k: v for k, v in ENV.items() if k != "RUSTUP_TOOLCHAIN"}


def log(*a):
    print(*a, flush=True)


def tree_hash(*extra):
    """Content of everything that a build depends on."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs"), *extra]
    for r in roots:
        files = [r] if os.path.isfile(r) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(r) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def fresh(target, extra):
    """Drops build output made from other sources, whatever the time stamps say."""
    stamp = os.path.join(target, "sources.sha256")
    h = tree_hash(*extra)
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h and os.path.isdir(target):
        for d, subdirs, files in os.walk(target):
            for n in list(subdirs) + files:
                if re.match(r"(lib)?(magnesia|symx|bmc|ir)\b", n) or (n.startswith("p") and re.match(r"p\d\d(-|$|\.)", n)):
                    p = os.path.join(d, n)
                    if os.path.isdir(p):
                        shutil.rmtree(p, ignore_errors=True)
                        if n in subdirs:
                            subdirs.remove(n)
                    elif os.path.exists(p):
                        os.remove(p)
    os.makedirs(target, exist_ok=True)
    return stamp, h


def run(cmd, cwd, env, timeout):
    """Output and return code; a process group that outlives its time is ended."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


# --- symbolic execution (symx) ---------------------------------------------------------------------

def symx_build(bins):
    target = os.path.join(BUILD, "symx")
    crate = os.path.join(HERE, "symx")
    stamp, h = fresh(target, [os.path.join(crate, "src"), os.path.join(crate, "Cargo.toml")])
    if os.path.exists(stamp):
        os.remove(stamp)
    cmd = ["cargo", "build", "--offline", "--locked", "--target-dir", target]
    for b in bins:
        cmd += ["--bin", b]
    rc, out = run(cmd, crate, ENV, 600)
    if rc == 0:
        with open(stamp, "w") as f:
            f.write(h)
    return rc == 0, out


def llvm_build():
    """LLVM code of the functions that are not generic, as the compiler makes it from /repo."""
    target = os.path.join(BUILD, "ir")
    crate = os.path.join(HERE, "ir")
    stamp, h = fresh(target, [os.path.join(crate, "src"), os.path.join(crate, "Cargo.toml")])
    if os.path.exists(stamp):
        os.remove(stamp)
    env = dict(ENV, RUSTFLAGS="--emit=llvm-ir -Cno-vectorize-slp -Cno-vectorize-loops")
    rc, out = run(["cargo", "build", "--offline", "--locked", "--target-dir", target], crate, env, 600)
    deps = os.path.join(target, "debug", "deps")
    lls = [os.path.join(deps, n) for n in sorted(os.listdir(deps) if os.path.isdir(deps) else [])
           if re.match(r"(magnesia|ir)-.*\.ll$", n)]
    if rc != 0 or len(lls) < 2:
        return None, "build of the LLVM code failed:\n" + out[-3000:]
    with open(stamp, "w") as f:
        f.write(h)
    return ":".join(lls), ""


def symx_env(prop):
    if "llvm" not in ENGINES[prop]:
        return ENV, ""
    lls, e = llvm_build()
    return (dict(ENV, SYMX_LLVM=lls) if lls else None), e


def known_of(prop):
    out = []
    for line in open(KNOWN):
        m = re.match(r"known: property=(\S+) case=(.*) \| (.*)$", line.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def symx_run(prop, tier, seed, budget):
    b = prop.lower()
    ok, out = symx_build([b])
    if not ok:
        return None, "build of the symbolic execution harness failed:\n" + out[-3000:]
    env, e = symx_env(prop)
    if e:
        return None, e
    exe = os.path.join(BUILD, "symx", "debug", b)
    js = os.path.join(BUILD, f"{b}.{os.getpid()}.json")
    kn = os.path.join(BUILD, f"{b}.{os.getpid()}.known")
    with open(kn, "w") as f:
        f.writelines(f"{c}\t{w}\n" for c, w in known_of(prop))
    try:
        rc, out = run([exe, "--tier", tier, "--seed", str(seed), "--out", js, "--known", kn, "--budget", str(budget),
                       "--replay-dir", os.path.join(EVID, "replay")], HERE, env, budget + 240)
        log(out.rstrip())
        if not os.path.exists(js):
            return None, f"symbolic execution gave no report (exit {rc}):\n{out[-2000:]}"
        with open(js) as f:
            return json.load(f), ""
    finally:
        for p in (js, kn):
            if os.path.exists(p):
                os.remove(p)


# --- bounded model checking (Kani) -----------------------------------------------------------------

def kani_native():
    target = os.path.join(BUILD, "kani-native")
    crate = os.path.join(HERE, "kani")
    stamp, h = fresh(target, [os.path.join(crate, "src"), os.path.join(crate, "Cargo.toml")])
    if os.path.exists(stamp):
        os.remove(stamp)
    rc, out = run(["cargo", "build", "--offline", "--locked", "--target-dir", target], crate, ENV, 600)
    if rc == 0:
        with open(stamp, "w") as f:
            f.write(h)
    return os.path.join(target, "debug", "replay") if rc == 0 else None, out


def kani_cmd(names, extra):
    cmd = ["cargo", "kani", "--lib", "--target-dir", os.path.join(BUILD, "kani"), "--exact", "-Z", "stubbing"]
    for n in names:
        cmd += ["--harness", n]
    return cmd + extra


def kani_fresh():
    """Kani's build output is small: start over whenever the sources changed."""
    target = os.path.join(BUILD, "kani")
    crate = os.path.join(HERE, "kani")
    stamp = os.path.join(target, "sources.sha256")
    h = tree_hash(os.path.join(crate, "src"), os.path.join(crate, "Cargo.toml"))
    if not os.path.exists(stamp) or open(stamp).read() != h:
        shutil.rmtree(target, ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(h)


def ignorable(c):
    # NaN results are values like any other here; Kani reports them as a courtesy
    return c["description"].startswith("NaN on ")


def kani_run(prop, tier, seed, budget):
    mod = prop.lower()
    exe, out = kani_native()
    if exe is None:
        return None, "build of the bounded model checking harness failed:\n" + out[-3000:]
    _, lst = run([exe, "list", mod], HERE, ENV, 60)
    harnesses = {}
    for line in lst.splitlines():
        n, *kind = line.split()
        if tier == "thorough" or not n.startswith("deep_"):
            harnesses[n] = bool(kind)
    js = os.path.join(BUILD, f"{mod}.{os.getpid()}.kani.json")
    t0 = time.time()
    kani_fresh()
    crate = os.path.join(HERE, "kani")
    per = max(30, int(budget * 0.8)) if tier == "thorough" else 120
    rc, out = run(kani_cmd([f"{mod}::proofs::{n}" for n in harnesses],
                           ["-Z", "unstable-options", "--export-json", js, "--output-format=terse", "-j", "8",
                            "--harness-timeout", f"{per}s"]), crate, KANI_ENV, budget)
    res = {"harnesses": len(harnesses), "checks": 0, "passed": 0, "decided": 0, "undecided": [], "violations": [],
           "unreproduced": [], "vccs": 0, "vccs_solved": 0, "steps": 0, "solver_s": 0.0, "symex_s": 0.0,
           "functions": set(), "reached_end": 0, "panics_proved": 0, "slowest": ("", 0)}
    if not os.path.exists(js):
        return None, f"Kani gave no report (exit {rc}):\n{out[-3000:]}"
    with open(js) as f:
        d = json.load(f)
    os.remove(js)
    for c in d.get("cbmc", []):
        s = c.get("cbmc_stats") or {}
        res["vccs"] += s.get("vccs_generated") or 0
        res["vccs_solved"] += s.get("vccs_remaining") or 0
        res["steps"] += s.get("size_program_expression") or 0
        res["solver_s"] += s.get("runtime_decision_procedure_s") or 0
        res["symex_s"] += s.get("runtime_symex_s") or 0
    seen = set()
    for r in d["verification_results"]["results"]:
        n = r["harness_id"].split("::")[-1]
        if n not in harnesses:
            continue
        seen.add(n)
        if r["duration_ms"] > res["slowest"][1]:
            res["slowest"] = (n, r["duration_ms"])
        checks = r.get("checks") or []
        if not checks:
            res["undecided"].append(f"{n}: no verdict within {per} s")
            continue
        res["checks"] += len(checks)
        end = [c["status"] for c in checks if c["description"] == "END"]
        reached = "Satisfied" in end
        fails = [c for c in checks if c["status"] == "Failure" and not ignorable(c)]
        unsure = [c for c in checks if c["status"] in ("Undetermined", "Unknown", "SolverError")]
        for c in checks:
            fn = c.get("function", "")
            if "magnesia" in fn or "src/" in (c.get("location") or {}).get("file", "") and "/repo/" in c["location"]["file"]:
                res["functions"].add(fn.split("::<")[0] if "::<" in fn else fn)
        res["passed"] += sum(c["status"] in ("Success", "Satisfied", "Unreachable", "Unsatisfiable") or ignorable(c)
                             for c in checks)
        if harnesses[n]:
            claim = [c for c in fails if "CLAIM" in c["description"]]
            unwind = [c for c in fails if "unwinding assertion" in c["description"]]
            if not reached and not claim and not unwind and not unsure and fails:
                res["decided"] += 1
                res["panics_proved"] += 1
                res["passed"] += len(fails)
                continue
            if not fails and not reached:
                res["undecided"].append(f"{n}: vacuous")
                continue
        else:
            if not fails and not unsure and reached:
                res["decided"] += 1
                res["reached_end"] += 1
                continue
            if not fails and not reached:
                res["undecided"].append(f"{n}: vacuous or undetermined")
                continue
        if time.time() - t0 > (540 if tier == "quick" else 3600):
            res["undecided"].append(f"{n}: failed, no time left to reproduce it")
            continue
        found = kani_counterexample(prop, mod, n, exe, crate, seed, len(res["violations"]) + 1)
        if found:
            res["violations"].append(found)
            if len(res["violations"]) >= 3:
                break
        else:
            what = "; ".join(c["description"] for c in (fails or unsure)[:3])
            res["unreproduced"].append(f"{n}: {what}")
            res["undecided"].append(f"{n}: not reproduced on the compiled code: {what}")
    for n in harnesses:
        if n not in seen and not res["violations"]:
            res["undecided"].append(f"{n}: not run")
    # the same harness bodies on values of their own, compiled natively
    rc, out = run([exe, "validate", mod, str(seed)], HERE, ENV, 120)
    res["validated"], res["samples"], res["mismatched"] = 0, [], []
    for line in out.splitlines():
        p = line.split()
        if len(p) > 1 and p[1] == "DISAGREES":
            res["mismatched"].append(line)
        elif len(p) > 1 and p[0] in harnesses:
            res["validated"] += int(p[1])
            if len(p) > 2:
                res["samples"].append(f"{p[0]} run natively with bytes {p[2]}..")
    res["wall_s"] = time.time() - t0
    log(f"{prop}: {res['harnesses']} Kani harnesses, {res['decided']} decided, {res['checks']} checks, "
        f"{res['vccs']} verification conditions, {res['solver_s']:.1f} s solver, {res['wall_s']:.1f} s")
    for u in res["undecided"]:
        log("  undecided:", u)
    return res, ""


def kani_counterexample(prop, mod, name, exe, crate, seed, n):
    """Concrete values from the solver, run on the compiled code."""
    rc, out = run(kani_cmd([f"{mod}::proofs::{name}"], ["-Z", "concrete-playback", "--concrete-playback=print",
                                                        "-Z", "unstable-options", "--harness-timeout", "120s"]), crate, KANI_ENV, 200)
    cands = []
    for block in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        v = []
        for vals in re.findall(r"vec!\[([\d,\s]*)\]", block):
            v += [int(x) for x in vals.replace("\n", " ").split(",") if x.strip()]
        h = "".join(f"{b:02x}" for b in v)
        if h not in cands:
            cands.append(h)
    if not cands:
        if "concrete_playback" not in out:
            log(f"  {name}: no values from Kani: {out.strip().splitlines()[-3:]}")
        cands = [""]
    for h in cands[:12]:
        rc, out = run([exe, "run", mod, name, h, str(seed)], HERE, ENV, 60)
        lines = out.strip().splitlines()
        # no return within the time counts as well: the harness bodies are finite
        if rc == 1 and lines:
            os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
            path = os.path.join(EVID, "replay", f"{prop}-kani-{n}.replay")
            with open(path, "w") as f:
                f.write(f"property {prop}\nharness {name}\nvalues {lines[0]}\nwhat {lines[1] if len(lines) > 1 else ''}\n")
            what = f"{name}: {lines[1] if len(lines) > 1 else ''} [bytes {lines[0]}]"
            log("  violation in", what)
            return {"case": name, "what": what, "replay": path}
    return None


# --- report ----------------------------------------------------------------------------------------

def evidence(prop, tier, seed, sx, kn, errors, t0):
    cov = {"bounds": BOUNDS[prop][tier] if isinstance(BOUNDS[prop], dict) else BOUNDS[prop], "engines": []}
    states = trans = valid = viol = 0
    samples, functions = [], set()
    obligations = discharged = queries = 0
    secs = 0.0
    if sx:
        cov["engines"].append("symx: symbolic execution of the compiler's LLVM code, z3" if "llvm" in ENGINES[prop]
                              else "symx: symbolic execution of the monomorphised code, z3")
        states += sx["distinct_paths"]
        trans += sx["symbolic_terms"]
        valid += sx["witnesses_validated"]
        viol += len(sx["violations"])
        samples += sx["samples"][:8]
        functions |= set(sx["functions"])
        obligations += sx["obligations"]
        discharged += sx["discharged"]
        queries += sx["solver_queries"]
        secs += sx["solver_seconds"]
        cov["symx"] = {k: sx[k] for k in (
            "cases", "paths", "distinct_paths", "abandoned_paths", "branch_decisions", "environment_choices",
            "obligations", "discharged", "discharged_by_simplification", "undecided", "expected_panics",
            "undecided_branches", "witnesses_validated", "witnesses_incomparable", "solver_queries", "sat", "unsat",
            "unknown", "second_attempts", "solver_seconds", "slowest_query_seconds", "max_symbolic_inputs", "symbolic_terms",
            "truncated_cases", "truncated_names", "mismatched", "unreproduced", "internal_errors", "solver_errors",
            "wall_s")}
        names = sx["case_names"]
        cov["symx"]["case_names"] = names if len(names) <= 150 else names[:: len(names) // 150 + 1]
        cov["symx"]["violations"] = sx["violations"]
        cov["symx"]["known_findings"] = sx["known_findings"]
    if kn:
        cov["engines"].append("Kani/CBMC: bounded model checking of the compiled code, CaDiCaL")
        states += kn["steps"]
        trans += kn["vccs"]
        valid += kn["validated"]
        viol += len(kn["violations"])
        samples += kn["samples"][:8]
        functions |= kn["functions"]
        obligations += kn["checks"]
        discharged += kn["passed"]
        queries += kn["vccs_solved"]
        secs += kn["solver_s"]
        cov["kani"] = {
            "harnesses": kn["harnesses"], "harnesses_decided": kn["decided"], "must_panic_harnesses_proved": kn["panics_proved"],
            "harness_ends_reached": kn["reached_end"], "checks": kn["checks"], "verification_conditions": kn["vccs"],
            "verification_conditions_left_to_the_solver": kn["vccs_solved"], "ssa_steps": kn["steps"],
            "solver_seconds": round(kn["solver_s"], 2), "symbolic_execution_seconds": round(kn["symex_s"], 2),
            "slowest_harness_ms": list(kn["slowest"]), "undecided": kn["undecided"], "unreproduced": kn["unreproduced"],
            "mismatched": kn["mismatched"], "native_runs_agreeing": kn["validated"], "violations": kn["violations"],
            "wall_s": round(kn["wall_s"], 2)}
    cov.update({
        "states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
        "rule": "states: distinct execution paths (symx) plus steps of the unrolled program (Kani); transitions: "
                "distinct operations executed symbolically along those paths plus verification conditions (Kani); traces validated: path witnesses "
                "and harness bodies run natively with the predicted outcome",
        "obligations": obligations, "discharged": discharged, "solver_queries": queries,
        "solver_seconds": round(secs, 2), "functions_encoded": sorted(functions)[:120], "errors": errors})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ASSUME["all"] + ASSUME.get(prop, []), "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))


def check(prop, tier, seed):
    t0 = time.time()
    old = os.path.join(EVID, "replay")
    for n in os.listdir(old) if os.path.isdir(old) else []:
        if n.startswith(prop + "-"):
            os.remove(os.path.join(old, n))
    engines = ENGINES[prop]
    sx = kn = None
    errors = []
    budget = 240 if tier == "quick" else 600
    if "symx" in engines:
        sx, e = symx_run(prop, tier, seed, budget)
        if e:
            errors.append(e)
            log("error:", e)
    if "kani" in engines and not (sx and sx["violations"]):
        kn, e = kani_run(prop, tier, seed, 300 if tier == "quick" else 2400)
        if e:
            errors.append(e)
            log("error:", e)
    if sx is None and kn is None:
        return 2
    evidence(prop, tier, seed, sx, kn, errors, t0)
    bad = (sx["violations"] if sx else []) + (kn["violations"] if kn else [])
    if sx:
        seen = set()
        for k in sx["known_findings"]:
            if k["what"] not in seen:
                seen.add(k["what"])
                log(f"KNOWN-FINDING: property={prop} {k['what']}")
    for v in bad:
        log(f"VIOLATION property={prop} replay={v['replay']}")
    return 1 if bad else 0


def replay(path):
    """Runs a recorded counterexample against /repo's current tree; exit 1 if it still fails."""
    text = open(path).read()
    prop = re.search(r"^property (\S+)", text, re.M).group(1)
    env = ENV
    if re.search(r"^harness ", text, re.M):
        exe, out = kani_native()
        if exe is None:
            log(out[-2000:])
            return 2
        cmd = [exe, "file", path]
    else:
        ok, out = symx_build([prop.lower()])
        env, e = symx_env(prop)
        if not ok or e:
            log(out[-2000:], e)
            return 2
        cmd = [os.path.join(BUILD, "symx", "debug", prop.lower()), "replay", path]
    rc, out = run(cmd, HERE, env, 300)
    log(out.rstrip())
    return rc if rc in (0, 1) else 2


def setup():
    """Builds everything once, so that the checks start with warm dependencies."""
    bins = [p.lower() for p, e in ENGINES.items() if "symx" in e]
    ok, out = symx_build(bins)
    if not ok:
        log(out[-3000:])
    lls, e = llvm_build()
    if e:
        log(e)
    exe, out2 = kani_native()
    if exe is None:
        log(out2[-3000:])
    kani_fresh()
    rc, out3 = run(["cargo", "kani", "--lib", "--target-dir", os.path.join(BUILD, "kani"), "-Z", "stubbing",
                    "--only-codegen"], os.path.join(HERE, "kani"), KANI_ENV, 600)
    if rc != 0:
        log(out3[-3000:])
    return 0 if ok and lls and exe and rc == 0 else 2


def main():
    a = sys.argv[1:]
    if not a:
        log(__doc__)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if a[0] == "setup":
            return setup()
        if a[0] == "replay":
            return replay(a[1])
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return check(a[0], tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        print("error:", e)
        sys.exit(2)
