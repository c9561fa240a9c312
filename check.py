#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled code.

    check.py --property C04 [--tier quick|thorough]
    check.py --setup            build everything once

Exit 0: held on everything explored.  Exit 1: broken (a VIOLATION line is
printed, and the counterexample has been replayed against the native build).
Exit 2: the check itself could not finish.
"""
import argparse
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
ENV.setdefault("HOME", "/root")
BUILD = os.path.join(HERE, ".build")
KNOWN = os.path.join(HERE, "known-findings.txt")
MAX_STEPS = 400_000_000
MAX_ALLOC = 1 << 28  # as in engine/src/exec.rs: larger allocations fail, in the executor and in replays
STACK = 2 << 20  # what a Rust thread gets; replays run on such a stack


class Broken(Exception):
    pass


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    if p.returncode != 0:
        raise Broken(f"{' '.join(cmd)} failed:\n{p.stdout[-4000:]}")
    return p.stdout


# ------------------------------------------------------------------ building


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def files(root, pats):
    r = []
    for p in pats:
        r += [f for f in glob.glob(os.path.join(root, p), recursive=True) if os.path.isfile(f)]
    return r


def build_engine():
    src = files(HERE, ["engine/src/**", "engine/Cargo.*"])
    d = os.path.join(BUILD, "engine-" + digest(src))
    exe = os.path.join(d, "symex")
    if not os.path.exists(exe):
        sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(d, "t")], os.path.join(HERE, "engine"))
        os.replace(os.path.join(d, "t/release/symex"), exe)
        shutil.rmtree(os.path.join(d, "t"))
    return exe


def build_ir(d):
    """the crate under test and the harnesses, as one LLVM module"""
    out = os.path.join(d, "m.ll")
    if os.path.exists(out):
        return out
    t = os.path.join(d, "ir")
    shutil.rmtree(t, ignore_errors=True)
    env = dict(ENV)
    env["RUSTFLAGS"] = "-Csave-temps -Clink-arg=-Wl,--unresolved-symbols=ignore-all -Cno-vectorize-loops -Cno-vectorize-slp"
    sh(["cargo", "rustc", "--lib", "--crate-type", "cdylib", "--release", "--offline", "--target-dir", t], os.path.join(HERE, "harness"), env)
    bc = glob.glob(t + "/release/deps/harness.harness.*-cgu.0.rcgu.bc")
    if len(bc) != 1:
        raise Broken(f"expected one bitcode file, found {bc}")
    root = sh(["rustc", "--print", "sysroot"], HERE).strip()
    dis = glob.glob(root + "/lib/rustlib/*/bin/llvm-dis")
    sh([dis[0], bc[0], "-o", out + ".tmp"], HERE)
    os.replace(out + ".tmp", out)
    shutil.rmtree(t, ignore_errors=True)
    return out


def build_replay(d, profile):
    exe = os.path.join(d, "replay-" + profile)
    if not os.path.exists(exe):
        t = os.path.join(d, "rp-" + profile)
        sh(["cargo", "build", "--offline", "--target-dir", t] + (["--release"] if profile == "release" else []), os.path.join(HERE, "replay"))
        os.replace(os.path.join(t, "release" if profile == "release" else "debug", "replay"), exe)
        shutil.rmtree(t, ignore_errors=True)
    return exe


def build_all():
    os.makedirs(BUILD, exist_ok=True)
    src = files(REPO, ["src/**", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo/**"]) + files(HERE, ["harness/src/**", "harness/Cargo.*", "replay/src/**", "replay/Cargo.*"])
    ver = sh(["rustc", "-V"], HERE)
    key = hashlib.sha256((digest(src) + ver + open(__file__).read()).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "tree-" + key)
    os.makedirs(d, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(build_engine), ex.submit(build_ir, d), ex.submit(build_replay, d, "release"), ex.submit(build_replay, d, "dev")]
        r = [f.result() for f in fs]
    # keep the last few trees only
    trees = sorted(glob.glob(BUILD + "/tree-*"), key=os.path.getmtime)
    os.utime(d)
    for old in trees[:-4]:
        if old != d:
            shutil.rmtree(old, ignore_errors=True)
    return r


# ----------------------------------------------------------------- exploring


def limits():
    resource.setrlimit(resource.RLIMIT_STACK, (min(2 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]) if resource.getrlimit(resource.RLIMIT_STACK)[1] != resource.RLIM_INFINITY else 2 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))


def explore(symex, ll, entry, out, jobs, seconds):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    r, w = os.pipe()
    os.set_blocking(r, False)
    if jobs > 1:
        os.write(w, b"+" * (jobs - 1))
    t = time.time()
    errors = []
    try:
        p = subprocess.run([symex, ll, entry, out, "--tokens", f"{r},{w}", "--time", str(seconds), "--max-steps", str(MAX_STEPS)], pass_fds=(r, w), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limits, timeout=seconds + 120)
        if p.returncode != 0:
            errors.append(f"executor ended with status {p.returncode}: {p.stderr[-500:]}")
    except subprocess.TimeoutExpired:
        errors.append("executor did not stop at its time limit")
    finally:
        os.close(r)
        os.close(w)
    a = {"entry": entry, "errors": [], "violations": [], "samples": [], "funcs": [], "marks": [0] * 8}
    for f in glob.glob(out + "/*.json"):
        with open(f) as g:
            d = json.load(g)
        for k, v in d.items():
            if isinstance(v, (int, float)):
                a[k] = max(a.get(k, 0), v) if k.startswith("max") else a.get(k, 0) + v
            elif k == "marks":
                a[k] = [x + y for x, y in zip(a[k], v)]
            elif isinstance(v, list):
                a[k].extend(v)
    a["errors"] = errors + a["errors"]
    a["elapsed"] = time.time() - t
    a["funcs"] = sorted(set(a["funcs"]))
    shutil.rmtree(out, ignore_errors=True)
    if "paths" not in a:
        a["errors"].append("executor left no result")
        a.update(paths=0, steps=0)
    return a


# ----------------------------------------------------------------- replaying


def small_stack():
    resource.setrlimit(resource.RLIMIT_STACK, (STACK, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (MAX_ALLOC, MAX_ALLOC))


def native(exe, entry, vals, timeout=20, wrap=()):
    try:
        p = subprocess.run([*wrap, exe, entry, vals], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=None if wrap else small_stack)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace"), ""


def reproduce(v, entry, rel, dev):
    """what the native code does on the solver's values; None if it behaves"""
    for name, exe in (("release", rel), ("dev", dev)):
        rc, out, err = native(exe, entry, v["vals"])
        if rc == "timeout":
            return f"{name} build: still running after 20 s", out
        if rc == 1 or (isinstance(rc, int) and rc < 0) or rc in (101, 134):
            return f"{name} build: exit status {rc}: {(out.splitlines() or [''])[-1] if rc == 1 else err.strip()[-300:]}", out
        if rc != 0:
            raise Broken(f"replay of {entry} {v['vals']} ended with {rc}: {err[-300:]}")
    if v["kind"] in ("memory", "undefined behaviour") and shutil.which("valgrind"):
        rc, out, err = native(rel, entry, v["vals"], 120, ("valgrind", "-q", "--error-exitcode=9"))
        if rc == 9:
            return "release build under valgrind: " + err.strip()[:300], out
    if v["kind"] == "no termination" and shutil.which("valgrind"):
        rc, out, err = native(rel, entry, v["vals"], 300, ("valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"))
        m = re.search(r"I\s+refs:\s+([\d,]+)", err)
        if rc == "timeout" or (m and int(m[1].replace(",", "")) > MAX_STEPS // 4):
            return f"release build: {m[1] if m else 'too many'} instructions", out
    return None


def validate(samples, rel):
    """the executor's prediction of what each sampled path outputs, against the real code"""
    if not samples:
        return 0, []
    text = "".join(f"{e} {s['vals']}\n" for e, s in samples)
    p = subprocess.run([rel, "--batch"], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, preexec_fn=limits)
    lines = p.stdout.splitlines()
    bad = []
    if len(lines) != len(samples):
        return 0, [f"native run stopped after {len(lines)} of {len(samples)} samples: {p.stderr[-300:]}"]
    for (e, s), l in zip(samples, lines):
        want = "ok " + ",".join(s["obs"])
        if l != want:
            bad.append(f"{e} {s['vals']}: executor {want[:200]} native {l[:200]}")
    return len(samples), bad


def known(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) name=(.*)$", l.rstrip("\n"))
            if m and m[1] == prop:
                r.append(m[2])
    return r


# -------------------------------------------------------------------- a check


def check(prop, tier):
    t0 = time.time()
    # all the time there is, less what building and replaying need
    deadline = t0 + (720 if tier == "quick" else 6 * 3600)
    symex, ll, rel, dev = build_all()
    table = json.loads(sh([rel, "--list"], HERE))
    todo = [h for h in table if h["prop"] == prop and (h["tier"] == 0 or (tier == "thorough" and h["tier"] == 1))]
    if not todo:
        raise Broken(f"no harness for {prop}")
    print(f"{prop}: {len(todo)} harnesses, built in {time.time() - t0:.0f} s", flush=True)
    jobs = max(1, min(8, len(os.sched_getaffinity(0))))
    runs, confirmed, errors, seen, late = [], [], [], [], []
    kn = known(prop)
    for h in todo:
        left = deadline - time.time()
        if left < 5:
            late.append(h["name"])
            continue
        a = explore(symex, ll, h["name"], os.path.join(BUILD, f"run-{os.getpid()}"), jobs, int(left))
        a["about"], a["pats"] = h["about"], h["pats"]
        runs.append(a)
        print(f"  {h['name']}: {a['paths']} paths, {a.get('queries', 0)} queries, {a['elapsed']:.1f} s, {len(a['violations'])} counterexamples", flush=True)
        for v in a["violations"]:
            what, out = reproduce(v, h["name"], rel, dev) or (None, "")
            v["harness"], v["native"], v["out"] = h["name"], what, out
            if what is None:
                errors.append(f"{h['name']}: {v['kind']} ({v['detail']}) on {v['input']!r} does not show natively [{' < '.join(v['trace'][:3])}]")
            elif v["input"] in kn:
                seen.append(v)
            else:
                confirmed.append(v)
                if len(confirmed) >= 3:
                    break
        if any(e.startswith("time limit reached") for e in a["errors"]):
            late.append(h["name"])
        errors += [f"{h['name']}: {e}" for e in a["errors"] if not e.startswith("time limit reached")]
        if not a["violations"] and not a["errors"] and (a["paths"] == 0 or a["marks"][0] + a["marks"][1] == 0 or (a["marks"][0] == 0)):
            errors.append(f"{h['name']}: vacuous (no accepted name reached the assertion)")
        if confirmed:
            break
    samples = [(a["entry"], s) for a in runs for s in a["samples"]]
    checked, bad = (0, []) if confirmed else validate(samples, rel)
    errors += [f"executor and native code disagree: {b}" for b in bad]

    def tot(k):
        return sum(a.get(k, 0) for a in runs)

    funcs = sorted({f for a in runs for f in a["funcs"]})
    own = [f for f in funcs if "undname" in f]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": checked - len(bad),
            "samples": [{"harness": e, "values": s["vals"], "observed": [bytes.fromhex(o).decode("utf-8", "replace")[:200] for o in s["obs"]]} for e, s in samples[:: max(1, len(samples) // 12)]][:14],
            "what_the_counts_are": "states: symbolic paths explored to the end, each standing for every name its path condition admits; transitions: LLVM instructions executed symbolically; traces: solver models of paths, run through the native release build, whose output equalled the executor's prediction",
            "solver": {
                "queries": tot("queries"),
                "answered_from_cache": tot("cached"),
                "sat": tot("sat"),
                "unsat": tot("unsat"),
                "unknown_then_case_split": tot("unknown"),
                "case_splits": tot("splits"),
                "seconds": round(tot("solver_time"), 2),
                "longest_query_s": max([a.get("max_query", 0) for a in runs] or [0]),
                "single_variable_verdicts_confirmed": tot("confirms"),
                "single_variable_verdicts_unconfirmed": tot("unconfirmed"),
            },
            "assertions": {"settled_by_rewriting_to_equal_terms": tot("asserts_concrete"), "put_to_the_solver": tot("asserts_solver")},
            "paths_infeasible": tot("infeasible"),
            "forks": tot("forks"),
            "functions_encoded": {"total": len(funcs), "of_the_crate": own},
            "harnesses": [
                {
                    "name": a["entry"],
                    "about": a["about"],
                    "families_of_names": a["pats"],
                    "paths": a["paths"],
                    "accepted": a["marks"][0],
                    "rejected": a["marks"][1],
                    "queries": a.get("queries", 0),
                    "solver_s": round(a.get("solver_time", 0), 2),
                    "symbolic_bytes_max": a.get("max_vars", 0),
                    "instructions_on_longest_path": a.get("max_steps", 0),
                    "deepest_call": a.get("max_depth", 0),
                    "seconds": round(a["elapsed"], 2),
                }
                for a in runs
            ],
            "bounds": "exactly the families of names listed per harness (syntax: DESIGN.md), no loop or recursion bound inside them: every path runs to its end; a path of more than %d instructions or call depth 4000 would be reported" % MAX_STEPS,
            "exhaustive": not errors and not confirmed and not late,
            "stopped_by_time_limit": late,
        },
        "assumptions": [
            "the executor's model of the LLVM instructions rustc emitted (release profile, overflow checks and debug assertions on, one module with the standard library's code)",
            "memory allocations of less than 2^28 bytes succeed",
            "z3 4.8.12",
            "the reference in harness/src/spec.rs states the intended output",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    if errors:
        ev["coverage"]["errors"] = errors[:20]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)

    for v in seen:
        print(f"KNOWN-FINDING: property={prop} {v['input']}: {v['native']}")
    if confirmed:
        for i, v in enumerate(confirmed):
            os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
            rp = os.path.join(HERE, "evidence", "replay", f"{prop}-{i}.txt")
            with open(rp, "w") as f:
                f.write(f"property: {prop}\nharness: {v['harness']}\nvalues: {v['vals']}\nname: {v['input']}\nkind: {v['kind']}: {v['detail']}\nin: {' < '.join(v['trace'])}\nnative: {v['native']}\n\n{v['out']}\nrun again: cd /verif/replay && cargo run --offline --target-dir /tmp/replay-target -- {v['harness']} {v['vals']}\n")
            print(f"{v['kind']}: {v['detail']} on {v['input']!r}; {v['native']}")
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    for h in late:
        print(f"INCOMPLETE {h}: the time ran out before every path was explored")
    for e in errors[:20]:
        print(f"ERROR {e}")
    if errors:
        return 2
    print(f"{prop}: held on {tot('paths')} paths; {tot('queries')} queries; {time.time() - t0:.0f} s")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            build_all()
            return 0
        return check(a.property, a.tier)
    except Broken as e:
        print(f"ERROR {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
