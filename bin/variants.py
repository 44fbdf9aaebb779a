"""Build variants of the harness and how to run them."""
import json, os, re, shutil, subprocess, fcntl, sys

class BuildError(Exception):
    pass

HOST = "x86_64-unknown-linux-gnu"
CHK = "--cfg jxlrs_verif"
SAN = CHK + " -Cdebug-assertions=on -Coverflow-checks=on -Cforce-frame-pointers=yes"
VARIANTS = {
    # optimised, debug assertions and overflow checks on, hooks on
    "chk": dict(tool=[], flags=CHK, args=["--release"], dir="release"),
    # out-of-bounds, use-after-free, leaks of the allocator's contract
    "asan": dict(tool=["+nightly"], flags=SAN + " -Zsanitizer=address", args=["--release", "--target", HOST], dir=HOST + "/release",
                 run_env={"VH_SAN": "asan", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1"}),
    # data races, with std instrumented too
    "tsan": dict(tool=["+nightly"], flags=SAN + " -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer", args=["--release", "--target", HOST, "-Zbuild-std"], dir=HOST + "/release",
                 run_env={"VH_SAN": "tsan", "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=4"}),
    # uses of uninitialised memory
    "msan": dict(tool=["+nightly"], flags=SAN + " -Zsanitizer=memory -Zsanitizer-memory-track-origins=2 -Cunsafe-allow-abi-mismatch=sanitizer", args=["--release", "--target", HOST, "-Zbuild-std"], dir=HOST + "/release",
                 run_env={"VH_SAN": "msan", "MSAN_OPTIONS": "exitcode=77"}),
}
# property -> [(variant, arguments of vh)]; default: [("chk", property)]
STEPS = {
    "P02": [("asan", "P02"), ("msan", "P02")],
    "P04": [("tsan", "P04")],
}

def build(V, name):
    v = VARIANTS[name]
    tgt = os.path.join(V, "target", name)
    os.makedirs(tgt, exist_ok=True)
    env = dict(os.environ)
    env["RUSTFLAGS"] = v["flags"]
    env["CARGO_TARGET_DIR"] = tgt
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    env.update(v.get("env", {}))
    with open(os.path.join(tgt, ".vlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo"] + v["tool"] + ["build", "--offline", "--quiet"] + v["args"],
                           cwd=os.path.join(V, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(p.stdout[-4000:])
    return os.path.join(tgt, v["dir"], "vh"), v.get("run_env", {})

REPORT = re.compile(r"(ERROR|WARNING): (AddressSanitizer|ThreadSanitizer|MemorySanitizer)[^\n]*|stack overflow|memory allocation of \d+ bytes failed|unsafe precondition\(s\) violated|panic in a function that cannot unwind")

def run(V, pid, variant, cmd, env):
    """Runs vh; a sanitizer report or a crash becomes a violation with what the threads were decoding."""
    bb = os.path.join(V, "work", f"bb-{pid}-{variant}-{os.getpid()}")
    os.makedirs(bb, exist_ok=True)
    env = dict(env)
    env["VH_BB"] = bb
    err = os.path.join(bb, "stderr.log")
    with open(err, "wb") as f:
        p = subprocess.run(cmd, env=env, cwd=V, stderr=f)
    rc = p.returncode
    text = open(err, errors="replace").read()
    crashed = rc == 77 or (rc < 0 and rc != -9)
    if crashed:
        d = os.path.join(V, "replays", f"{pid}-crash-{os.getpid()}")
        os.makedirs(d, exist_ok=True)
        for n in os.listdir(bb):
            if os.path.getsize(os.path.join(bb, n)):
                shutil.copy(os.path.join(bb, n), d)
        m = REPORT.search(text)
        print(f"VIOLATION property={pid} replay={d}")
        print("  " + (m.group(0) if m else f"ended by signal {-rc}"))
        if m:
            print("\n".join("  " + l for l in text[m.start():].splitlines()[1:30]))
        sys.stdout.flush()
        rc = 1
    elif rc not in (0, 1):
        sys.stdout.write(text[-3000:])
    shutil.rmtree(bb, ignore_errors=True)
    return rc

def merge_evidence(V, pid, parts):
    out = None
    for name, f in parts:
        try:
            j = json.load(open(f))
        except Exception:
            continue
        if out is None:
            out = j
            out["coverage"] = {**j["coverage"], "parts": {}}
        else:
            for k in ("evaluations", "distinct_nontrivial"):
                out["coverage"][k] += j["coverage"][k]
            out["coverage"]["samples"] = (out["coverage"]["samples"] + j["coverage"]["samples"])[:10]
            out["coverage"]["rule"] += " || " + j["coverage"]["rule"]
            out["wall_s"] += j["wall_s"]
            out["violations"] = out.get("violations", 0) + j.get("violations", 0)
            out["assumptions"] += [a for a in j["assumptions"] if a not in out["assumptions"]]
        out["coverage"]["parts"][f"{len(out['coverage']['parts'])}:{name}"] = {"evaluations": j["coverage"]["evaluations"], "observed": j["coverage"].get("observed", {})}
    if out is not None:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(out, open(os.path.join(V, "evidence", pid + ".json"), "w"))
