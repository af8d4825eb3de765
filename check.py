#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--budget seconds]
   check.py --replay <file>
   check.py --build            (builds everything the quick checks need)

Rebuilds the harness from /repo's working tree, runs it under its monitors on all cores and reports:
exit 0: held on everything explored; exit 1 + VIOLATION line: violated; exit 2: inconclusive."""
import glob, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
REPO = "/repo"
HANG_CPU = 25.0        # CPU seconds one case may take inside the code under test (usual: milliseconds)
T0 = time.time()

# per property: build flavour and level; run time in seconds per tier
PROPS = {p: dict(flavor="cov", level="exploration", quick=45, thorough=600) for p in
         ["C%02d" % i for i in range(1, 22)]}
PROPS["C06"].update(flavor="asan")
PROPS["C10"].update(level="fault_enumeration")

def env(flavor):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, flavor)
    if flavor in ("cov", "asan"):
        e["RUSTC_WRAPPER"] = os.path.join(HERE, "rustc-cov.sh")
    if flavor == "asan":
        nightly = [l.split()[0] for l in subprocess.run(["rustup", "toolchain", "list"], env=e, capture_output=True,
                                                         text=True).stdout.splitlines() if l.startswith("nightly")]
        e["RUSTUP_TOOLCHAIN"] = nightly[0] if nightly else "nightly"
        e["RUSTFLAGS"] = "-Zsanitizer=address -Cdebug-assertions=on"
        e["CARGO_BUILD_TARGET"] = "x86_64-unknown-linux-gnu"
    return e

def die(msg):
    print("INCONCLUSIVE: " + msg)
    sys.exit(2)

INNER = ("C20",)   # needs the feature "nodes"

def build(flavor, prop=None):
    e = env(flavor)
    cwd = os.path.join(HERE, "harness")
    out = os.path.join(e["CARGO_TARGET_DIR"], e.get("CARGO_BUILD_TARGET", ""), "release", "harness")
    if os.path.isdir(e["CARGO_TARGET_DIR"]):
        # whatever the time stamps say, the code under test is compiled anew
        subprocess.run(["cargo", "clean", "--offline", "--release", "-p", "actiondb", "-p", "harness"], cwd=cwd, env=e,
                       capture_output=True)
    cmd = ["cargo", "build", "--release", "--offline", "--locked"]
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=700)
    if r.returncode != 0 and prop not in INNER:
        # without the parts that use inner interfaces of the crate, which this property does not need
        r2 = subprocess.run(cmd + ["--no-default-features"], cwd=cwd, env=e, capture_output=True, text=True, timeout=700)
        if r2.returncode == 0:
            r = r2
    if r.returncode != 0 or not os.path.exists(out):
        sys.stdout.write(r.stderr[-4000:])
        die("the harness does not build against /repo")
    return out

def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read()
        f = s[s.rindex(")") + 2:].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError):
        return None

def read_cur(path):
    with open(path, "rb") as f:
        case, flag, seed, n = struct.unpack("<4Q", f.read(32))
        return case, flag, seed, list(struct.unpack("<%dI" % n, f.read(4 * n)))

def run_env(flavor):
    e = env(flavor)
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=0"
    e["RUST_BACKTRACE"] = "0"
    e["VERIF_HOME"] = HERE
    return e

def replay_run(binary, flavor, prop, tape, seed, scratch, tier, cpu=None):
    tf = os.path.join(scratch, "replay.tape")
    with open(tf, "w") as f:
        f.write(" ".join(map(str, tape)))
    cmd = [binary, "replay", "--prop", prop, "--tape", tf, "--dir", scratch, "--tier", tier]
    if seed:
        cmd += ["--case-seed", str(seed)]
    def pre():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (int(cpu), int(cpu) + 2))
    return subprocess.run(cmd, env=run_env(flavor), capture_output=True, text=True, errors="replace", preexec_fn=pre,
                          timeout=600)

def save_replay(prop, flavor, kind, tape, seed, why, tier):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, flavor=flavor, kind=kind, seed=seed, tape=tape, tier=tier, why=why)
    h = hashlib.sha1(json.dumps([tape, seed]).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f:
        json.dump(body, f)
    return p

def run(prop, tier, seed, budget):
    cfg = PROPS[prop]
    flavor = cfg["flavor"]
    binary = build(flavor, prop)
    t_built = time.time()
    budget = budget or cfg[tier]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    violations = []
    stats = None
    try:
        stats, violations, broken = monitor(binary, flavor, prop, tier, seed, budget, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    rule = subprocess.run([binary, "rule", prop], env=run_env(flavor), capture_output=True, text=True).stdout.strip()
    cov = dict(evaluations=stats["evals"], distinct_nontrivial=len(stats["hashes"]), rule=rule, samples=stats["samples"][:4])
    if stats["shapes"]:
        cov["distinct_behaviours_observed"] = len(stats["shapes"])
    cov["observed"] = stats["counts"]
    cov["maxima"] = stats["maxima"]
    if stats["coverage_size"]:
        cov["code_edges_reached"] = len(stats["covered"])
        cov["code_edges_instrumented"] = stats["coverage_size"]
    cov["workers"] = stats["workers"]
    cov["build_s"] = round(t_built - T0, 1)
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], coverage=cov, wall_s=round(time.time() - T0, 2),
              violations=len(violations),
              assumptions=["the reference model and generators in /verif/harness state the property correctly",
                           "verdict is for the executions observed in this run only"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    if violations:
        v = min(violations, key=lambda x: len(x["tape"]))
        p = save_replay(prop, flavor, v["kind"], v["tape"], v["seed"], v["why"], tier)
        print(v["why"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if broken:
        die("; ".join(broken)[:2000])
    if stats["evals"] == 0 or not stats["hashes"]:
        die("nothing was observed")
    print("%s held: %d cases, %d distinct and non-trivial, %d of %d code edges reached, %.0f s" %
          (prop, stats["evals"], len(stats["hashes"]), len(stats["covered"]), stats["coverage_size"], time.time() - T0))
    return 0

def monitor(binary, flavor, prop, tier, seed, budget, scratch):
    n = max(1, min(8, os.cpu_count() or 1))
    procs = {}
    for i in range(n):
        d = os.path.join(scratch, "d%d" % i)
        os.mkdir(d)
        cmd = [binary, "worker", "--prop", prop, "--seed", str(seed), "--worker", str(i), "--budget", str(budget),
               "--dir", d, "--tier", tier]
        if flavor != "asan":
            cmd += ["--mem", str(6 << 30)]
        err = open(os.path.join(d, "stderr"), "wb")
        procs[i] = dict(p=subprocess.Popen(cmd, env=run_env(flavor), stdin=subprocess.DEVNULL, stdout=err, stderr=err), dir=d,
                        case=None, cpu=0.0, hang=False)
        err.close()
    violations, broken, live = [], [], dict(procs)
    deadline = time.time() + budget * 3 + 120
    stop = False
    while live:
        time.sleep(0.2)
        for i, w in list(live.items()):
            rc = w["p"].poll()
            cur = os.path.join(w["dir"], "w%d.cur" % i)
            if rc is None:
                if os.path.exists(cur) and os.path.getsize(cur) > 32:
                    with open(cur, "rb") as f:
                        case, flag = struct.unpack("<2Q", f.read(16))
                    cpu = cpu_of(w["p"].pid)
                    if case != w["case"] or cpu is None:
                        w["case"], w["cpu"] = case, cpu or 0.0
                    elif cpu - w["cpu"] > HANG_CPU and flag:
                        w["hang"] = True
                        w["p"].kill()
                        w["p"].wait()
                        del live[i]
                if stop or time.time() > deadline:
                    if i in live:
                        # another worker found a violation, or the watchdog: ended without a verdict
                        w["p"].kill()
                        w["p"].wait()
                        w["ended"] = True
                        if not stop:
                            broken.append("worker %d did not end in time" % i)
                        del live[i]
                continue
            w["rc"] = rc
            del live[i]
            if rc == 10:
                stop_at = time.time()
                stop = True
    stats = dict(evals=0, counts={}, maxima={}, samples=[], hashes=set(), shapes=set(), covered=set(), coverage_size=0, workers=n)
    for i, w in procs.items():
        d = w["dir"]
        j = os.path.join(d, "w%d.json" % i)
        if os.path.exists(j):
            s = json.load(open(j))
            stats["evals"] += s["evals"]
            for k, v in s["counts"].items():
                stats["counts"][k] = stats["counts"].get(k, 0) + v
            for k, v in s["maxima"].items():
                stats["maxima"][k] = max(stats["maxima"].get(k, 0), v)
            stats["samples"] += s["samples"][:1]
            stats["covered"] |= set(s["covered"])
            stats["coverage_size"] = max(stats["coverage_size"], s["coverage_size"])
            for name in ("hash", "shape"):
                b = open(os.path.join(d, "w%d.%s" % (i, name)), "rb").read()
                stats[{"hash": "hashes", "shape": "shapes"}[name]].update(struct.unpack("<%dQ" % (len(b) // 8), b))
        fail = os.path.join(d, "w%d.fail" % i)
        cur = os.path.join(d, "w%d.cur" % i)
        err = open(os.path.join(d, "stderr"), "rb").read().decode("utf8", "replace")
        if os.path.exists(fail):
            r = json.load(open(fail))
            if r["kind"] == "violation":
                violations.append(dict(kind="violation", tape=[int(x) for x in r["tape"].split()], seed=0, why=r["why"]))
            else:
                broken.append("harness error: " + r["why"])
        elif w["hang"]:
            case, flag, cs, tape = read_cur(cur)
            r = replay_run(binary, flavor, prop, tape, cs, scratch, tier, cpu=2 * HANG_CPU)
            if r.returncode in (-signal.SIGXCPU, -signal.SIGKILL) and prop in ("C06", "C16"):
                violations.append(dict(kind="hang", tape=tape, seed=cs,
                                       why="a call into the code under test did not return within %d s of CPU time (twice)" % (2 * HANG_CPU)))
            elif r.returncode == 10:
                violations.append(dict(kind="violation", tape=tape, seed=cs, why=r.stdout))
            else:
                broken.append("a case took more than %d s of CPU time" % HANG_CPU)
        elif w.get("rc", 0) not in (0, None) and not w.get("ended"):
            # the process died: is it the code under test, and does it happen again?
            if not os.path.exists(cur):
                broken.append("worker died early: " + err[-500:])
                continue
            case, flag, cs, tape = read_cur(cur)
            r = replay_run(binary, flavor, prop, tape, cs, scratch, tier)
            oom = "memory allocation of" in err or "rss limit" in err
            if flag and r.returncode == 10:
                violations.append(dict(kind="violation", tape=tape, seed=cs, why=r.stdout))
            elif flag and r.returncode < 0 and (not oom or prop in ("C06", "C13", "C16")):
                violations.append(dict(kind="death", tape=tape, seed=cs,
                                       why="the process died inside the code under test (status %d)\n%s" % (r.returncode, (r.stderr or err)[-2500:])))
            else:
                broken.append("worker died (status %s, again %s): %s" % (w.get("rc"), r.returncode, err[-500:]))
    return stats, violations, broken

def replay(path):
    r = json.load(open(path))
    binary = build(r["flavor"], r["property"])
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        x = replay_run(binary, r["flavor"], r["property"], r["tape"], r["seed"], scratch, r.get("tier", "quick"),
                       cpu=2 * HANG_CPU if r["kind"] == "hang" else None)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.write(x.stdout + x.stderr)
    if x.returncode == 10 or x.returncode < 0:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    return 0 if x.returncode == 0 else 2

def main():
    a = sys.argv[1:]
    def opt(k, default=None):
        return a[a.index(k) + 1] if k in a else default
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--build":
        for f in sorted(set(c["flavor"] for c in PROPS.values())):
            build(f)
        return 0
    if not a or a[0] not in PROPS:
        print(__doc__)
        return 2
    tier = opt("--tier") or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    b = opt("--budget")
    return run(a[0], tier, seed, float(b) if b else None)

if __name__ == "__main__":
    try:
        code = main()
    except subprocess.TimeoutExpired as e:
        print("INCONCLUSIVE: %s" % e)
        code = 2
    sys.exit(code)
