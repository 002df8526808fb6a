#!/usr/bin/env python3
"""Decides one property: build the monitors against /repo's working tree, run them, judge, write evidence.

usage: check.py <PROPERTY>            (VERIF_SEED, VERIF_TIER from the environment)
       check.py --build               (setup: build everything the checks need)
Exit 0: held on everything observed.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Any other exit: the check itself could not decide (build error, harness error, too few observations).
"""
import fcntl, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")

# property -> build variants it needs
#   harness: monitors + instrumented debug binaries;  asan: AddressSanitizer binaries;  svc: service monitors
NEEDS = json.load(open(os.path.join(VERIF, "tools", "needs.json")))

BUILDS = {
    "harness": dict(dir="harness", args=["cargo", "build", "--offline"], env={}),
    "asan": dict(
        dir="harness",
        args=["cargo", "+nightly", "build", "--offline", "-p", "symsorter", "-p", "wasm-split",
              "--target", "x86_64-unknown-linux-gnu"],
        env={"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes", "CFLAGS": "", "CARGO_PROFILE_DEV_DEBUG": "1"}),
    "svc": dict(dir="svc", args=["cargo", "build", "--offline"], env={}),
}
REPO_PACKAGES = {
    "harness": ["symbolicator-sources", "vh", "symsorter", "wasm-split"],
    "asan": ["symsorter", "wasm-split"],
    "svc": ["symbolicator-sources", "symbolicator-service", "symbolicator-js", "symbolicator-proguard", "symbolicator-native", "symbolicator-app", "svcmon"],
}


def repo_digest():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(os.path.join(REPO, "crates")):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(kind, prop=None):
    """Build against the current working tree; never trust time stamps alone.

    If the working tree as a whole does not build, what the property needs of it may still.
    """
    b = BUILDS[kind]
    tdir = os.path.join(TARGET, kind)
    os.makedirs(tdir, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **b["env"])
    env.pop("RUSTC_WRAPPER", None)
    if kind != "asan":
        env.pop("RUSTFLAGS", None)
    cwd = os.path.join(VERIF, b["dir"])
    with open(os.path.join(tdir, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(tdir, ".repo-digest")
        digest = repo_digest()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != digest:
            if os.path.exists(stamp):
                os.unlink(stamp)
                pk = [x for p in REPO_PACKAGES[kind] for x in ("-p", p)]
                clean = b["args"][:1] + (["+nightly"] if "+nightly" in b["args"] else []) + ["clean", "--offline"] + pk
                if "--target" in b["args"]:
                    clean += ["--target", "x86_64-unknown-linux-gnu"]
                subprocess.run(clean, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(b["args"], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 and kind == "svc" and prop:
            features = NEEDS[prop].get("features", "")
            args = b["args"] + ["--no-default-features", "--features", features]
            r = subprocess.run(args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print(f"ERROR: building {kind} failed")
            sys.exit(2)
        with open(stamp, "w") as fh:
            fh.write(digest)


def known_findings():
    """(property, signature) pairs of recorded, unrepaired findings.  Never written at run time."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                # known: property=<id> sig=<json string> <text>
                rest = line[len("known: "):].strip()
                prop, rest = rest.split(" ", 1)
                prop = prop.split("=", 1)[1]
                assert rest.startswith("sig=")
                sig, end = json.JSONDecoder().raw_decode(rest[4:])
                out[(prop, sig)] = rest[4 + end:].strip()
    return out


def main():
    if sys.argv[1] == "--build":
        for kind in BUILDS:
            if os.path.isdir(os.path.join(VERIF, BUILDS[kind]["dir"])):
                t = time.time()
                build(kind)
                print(f"built {kind} in {time.time() - t:.1f}s")
        return 0
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = NEEDS[prop]
    t0 = time.time()
    for kind in spec["builds"]:
        build(kind, prop)
    limit = spec["thorough_s"] if tier == "thorough" else spec["quick_s"]
    work = tempfile.mkdtemp(prefix=f"vh-{prop}-")
    report = os.path.join(work, "report.json")
    scratch = os.path.join(work, "w")
    os.makedirs(scratch)
    bins = os.path.join(TARGET, "harness", "debug")
    exe = os.path.join(TARGET, "svc", "debug", "svcmon") if "svc" in spec["builds"] else os.path.join(bins, "vh")
    cmd = [exe, prop, "--seed", str(seed), "--tier", tier, "--seconds", str(limit), "--work", scratch,
           "--bins", bins, "--out", report]
    if "asan" in spec["builds"]:
        cmd += ["--asan-bins", os.path.join(TARGET, "asan", "x86_64-unknown-linux-gnu", "debug")]
    hung = 0
    try:
        while True:
            code = None
            if os.path.exists(report):
                os.remove(report)
            try:
                code = subprocess.run(cmd, timeout=limit + spec.get("grace_s", 180)).returncode
            except subprocess.TimeoutExpired:
                hung += 1
            brought_down = None
            if code in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
                # the code under test runs in the monitor's process: it brought it down
                brought_down = ("the code under test brought the process down", {"signal": signal.Signals(-code).name})
            elif hung == 2:
                # twice: every monitor ends on its own long before
                brought_down = ("the code under test does not come to an end", {"seconds": limit + spec.get("grace_s", 180)})
            if brought_down:
                with open(report, "w") as fh:
                    json.dump({"violations": [{"sig": brought_down[0], "detail": brought_down[1]}],
                               "evaluations": 1, "distinct_nontrivial": 1, "rule": "the process survives and ends", "samples": [],
                               "counters": {"processes brought down": 1}, "assumptions": [], "inconclusive": None}, fh)
                code = 0
            elif hung and code is None:
                if tier == "thorough":
                    print("ERROR: monitor run exceeded its watchdog (inconclusive)")
                    return 2
                continue
            if code != 0 or not os.path.exists(report):
                print(f"ERROR: monitor ended with {code} and no verdict (inconclusive)")
                return 2
            rep = json.load(open(report))
            if rep["inconclusive"] and not rep["violations"] and time.time() - t0 + 3 * limit < 600:
                # a busy machine: the same with more time
                print(f"not enough yet in {limit}s: {rep['inconclusive']}", flush=True)
                limit *= 3
                cmd[cmd.index("--seconds") + 1] = str(limit)
                continue
            break
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = known_findings()
    fresh, listed = [], []
    for v in rep["violations"]:
        (listed if (prop, v["sig"]) in known else fresh).append(v)
    seen = set()
    for v in listed:
        if v["sig"] not in seen:
            seen.add(v["sig"])
            print(f"KNOWN-FINDING: property={prop} {v['sig']}: {known[(prop, v['sig'])]}")

    wall = time.time() - t0
    coverage = {
        "evaluations": rep["evaluations"],
        "distinct_nontrivial": rep["distinct_nontrivial"],
        "rule": rep["rule"],
        "samples": rep["samples"] or ["(none)"],
        "observed": rep["counters"],
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": coverage, "assumptions": rep["assumptions"], "wall_s": round(wall, 3), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=True)
    print(f"{prop}: {rep['evaluations']} evaluations, {rep['distinct_nontrivial']} distinct non-trivial, "
          f"{len(rep['violations'])} violation witnesses, {wall:.1f}s; {json.dumps(rep['counters'])}")
    if fresh:
        rdir = os.path.join(TARGET, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{tier}-{seed}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "seed": seed, "tier": tier, "violations": fresh,
                       "replay": f"VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {prop}"}, fh, indent=1)
        for v in fresh[:8]:
            print(f"  broken: {v['sig']}: {json.dumps(v['detail'])[:700]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if rep["inconclusive"]:
        print(f"ERROR: inconclusive: {rep['inconclusive']}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
