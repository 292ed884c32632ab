#!/usr/bin/env python3
"""check.py ID quick|thorough [--replay FILE]

Builds the monitors (and, for the command-line properties, the tools) from /repo's working tree and runs
the monitor of one property. Exit 0: property held on everything observed; 1: violation (VIOLATION line);
2: no answer (build failure, killed, too little observed)."""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLI = {"C25", "C26", "C27", "C28", "C29", "C30"}
T0 = time.time()


def base_env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUST_BACKTRACE", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def run(cmd, env, cwd, timeout, quiet=True):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else x.stdout or "")


def no_answer(why, out=""):
    print(out[-4000:])
    print("NO ANSWER:", why)
    sys.exit(2)


def build(env):
    rc, out = run(["cargo", "build", "--offline"], env, os.path.join(VERIF, "harness"), 600)
    if rc != 0:
        no_answer("the monitors do not build", out)


def build_cli(env):
    e = dict(env)
    e.update(CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    rc, out = run(["cargo", "build", "--workspace", "--bins", "--features", "elinor/serde", "--offline"], e, REPO, 600)
    if rc != 0:
        no_answer("the command-line tools do not build", out)


def violation(pid, tier, seed, message, inflight=None):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-abort.json")
    v = {"property": pid, "tier": tier, "seed": seed, "regime": "", "case": 0, "message": message[:20000]}
    if inflight:
        v.update(regime=inflight[0]["regime"], case=inflight[0]["case"], inflight=inflight)
    json.dump(v, open(path, "w"), indent=1)
    print(message[:3000])
    print(f"VIOLATION property={pid} replay={path}")


def evidence_update(pid, tier, seed, violations, extra, note=""):
    """Adds what the sanitizer runs observed (or records an abort) to the evidence file."""
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    try:
        ev = json.load(open(path))
    except Exception:
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": note, "samples": []},
              "assumptions": [], "wall_s": 0, "violations": 0}
    ev["violations"] += violations
    ev["coverage"].update(extra)
    ev["wall_s"] = round(time.time() - T0, 3)
    json.dump(ev, open(path, "w"), indent=1)


def monitor(pid, tier, seed, env, replay):
    exe = os.path.join(VERIF, "harness", "target", "debug", "elinor-monitor")
    cmd = [exe, pid] + (["--replay", replay] if replay else [])
    ev = os.path.join(VERIF, "evidence", f"{pid}.json")
    if not replay and os.path.exists(ev):
        os.remove(ev)
    infl = tempfile.mkdtemp(prefix="elinor-inflight-")
    env = dict(env, VERIF_DIR=VERIF, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_INFLIGHT=infl, VERIF_REPO=REPO)
    try:
        limit = 780 if tier == "quick" else 3000
        rc, out = run(cmd, env, VERIF, limit)
        print(out, end="")
        if rc in (0, 1, 2):
            return rc
        if rc is None:
            no_answer(f"the monitor did not finish within {limit} s")
        if rc in (-6, -11, -4, -8, -7, 134, 139):
            cases = []
            for f in sorted(os.listdir(infl)):
                try:
                    c = json.load(open(os.path.join(infl, f)))
                    if c.get("regime"):
                        cases.append(c)
                except Exception:
                    pass
            violation(pid, tier, seed, f"the process died with signal {-rc if rc < 0 else rc - 128} while running the code under test; cases in flight: {cases}\n{out[-2000:]}", cases)
            evidence_update(pid, tier, seed, 1, {"aborted": True})
            return 1
        no_answer(f"the monitor ended with status {rc}")
    finally:
        shutil.rmtree(infl, ignore_errors=True)


def sanitized(pid, tier, seed, env, kind):
    """Runs the C24 workload under ThreadSanitizer or Miri. Returns (violated, evidence)."""
    hd = os.path.join(VERIF, "harness")
    e = dict(env, VERIF_DIR=tempfile.mkdtemp(prefix="elinor-san-"), VERIF_SEED=str(seed), VERIF_TIER="quick", VERIF_SANITIZER=kind, RUSTUP_TOOLCHAIN="nightly", VERIF_CASE_CPU="100000")
    try:
        if kind == "tsan":
            e["RUSTFLAGS"] = "-Zsanitizer=thread"
            e["CARGO_TARGET_DIR"] = os.path.join(hd, "target", "tsan")
            rc, out = run(["cargo", "build", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu", "--offline"], e, hd, 600)
            if rc != 0:
                no_answer("the ThreadSanitizer build fails", out)
            exe = os.path.join(hd, "target", "tsan", "x86_64-unknown-linux-gnu", "debug", "elinor-monitor")
            e["TSAN_OPTIONS"] = "halt_on_error=0 exitcode=66"
            rc, out = run([exe, pid], e, VERIF, 400)
            bad = "WARNING: ThreadSanitizer" in out
        else:
            # without the second flag logarithms differ from call to call
            e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-deterministic-floats"
            e["CARGO_TARGET_DIR"] = os.path.join(hd, "target", "miri")
            e["VERIF_BUDGET"] = "400"
            rc, out = run(["cargo", "miri", "run", "--offline", "--", pid], e, hd, 2400)
            bad = "Undefined Behavior" in out or "error: unsupported" not in out and "Data race" in out
        obs = {}
        try:
            obs = json.load(open(os.path.join(e["VERIF_DIR"], "evidence", f"{pid}.json")))["coverage"]["observed"]
        except Exception:
            pass
    finally:
        shutil.rmtree(e["VERIF_DIR"], ignore_errors=True)
    if bad:
        violation(pid, tier, seed, f"{kind} reports:\n" + out[-6000:])
        return True, {kind: "violation"}
    if "VIOLATION property=" in out:
        violation(pid, tier, seed, f"under {kind}:\n" + out[-6000:])
        return True, {kind: "violation"}
    if rc != 0:
        if tier == "thorough" and kind == "miri" and (rc is None or "unsupported" in out):
            return False, {kind: "no result: " + out[-300:]}
        no_answer(f"the {kind} run ended with status {rc}", out)
    return False, {kind: obs}


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    env = base_env()
    build(env)
    if pid in CLI:
        build_cli(env)
    rc = monitor(pid, tier, seed, env, replay)
    if pid == "C24" and rc == 0 and not replay:
        extra = {}
        for kind in ["tsan"] + (["miri"] if tier == "thorough" else []):
            bad, x = sanitized(pid, tier, seed, env, kind)
            extra.update(x)
            if bad:
                evidence_update(pid, tier, seed, 1, {"sanitizers": extra})
                sys.exit(1)
        evidence_update(pid, tier, seed, 0, {"sanitizers": extra})
    sys.exit(rc)


main()
