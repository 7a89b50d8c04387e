#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  check.py setup              build every simulator variant
  check.py run PROP           one check (VERIF_SEED, VERIF_TIER)
  check.py replay FILE        re-execute a replay file, exit 1 if it reproduces
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SIM = os.path.join(VERIF, "sim", "libsim")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
TOOLCHAIN = "nightly-2023-07-30"

# variant -> (cargo profile arguments, output folder, RUSTFLAGS)
VARIANTS = {
    "opt0": ([], "debug", ""),
    "opt3": (["--release"], "release", ""),
    "opt3-avx2": (["--release"], "release", "-C target-feature=+avx2,+fma,+bmi2,+popcnt"),
    # only nodes of the cluster (C12)
    "opt3-ssse3": (["--release", "--lib"], "release", "-C target-feature=+ssse3,+sse4.1,+sse4.2"),
    "opt3-avx": (["--release", "--lib"], "release", "-C target-feature=+avx"),
}
NEEDS = {"opt3-avx2": ("avx2", "fma", "bmi2", "popcnt"), "opt3-ssse3": ("ssse3", "sse4_1", "sse4_2"), "opt3-avx": ("avx",)}
from props import PROPS, runs_for  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def fail(msg):
    log("check.py: error:", msg)
    sys.exit(2)


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG",
              "CARGO_INCREMENTAL", "LD_PRELOAD", "LIBSIM_REEXEC"):
        e.pop(k, None)
    return e


def tree_hash():
    """Content hash of everything a simulator build depends on."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs"),
             os.path.join(SIM, "src"), os.path.join(VERIF, "sim", "libops"), os.path.join(SIM, "Cargo.toml"), os.path.join(SIM, "Cargo.lock")]
    files = []
    for r in roots:
        if os.path.isfile(r):
            files.append(r)
        for d, _, fs in os.walk(r):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def variants(prop=None):
    """Builds a check uses: the three simulators, for C12 also the other nodes."""
    out = ["opt3", "opt0", "opt3-avx2"] + (["opt3-ssse3", "opt3-avx"] if prop in (None, "C12") else [])
    try:
        flags = open("/proc/cpuinfo").read()
    except OSError:
        flags = ""
    return [v for v in out if all(re.search(r"\b%s\b" % f, flags) for f in NEEDS.get(v, ()))]


def nodes(bins):
    return ",".join("%s=%s" % (v, os.path.join(os.path.dirname(b), "libnode.so")) for v, b in bins.items())


class Lock:
    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(vs):
    """Builds the simulator against /repo's working tree; returns binaries."""
    with Lock():
        h = tree_hash()
        base = os.path.join(TARGET, h)
        for d in os.listdir(TARGET):
            p = os.path.join(TARGET, d)
            if d != h and os.path.isdir(p) and re.fullmatch(r"[0-9a-f]{16}", d):
                if time.time() - os.path.getmtime(p) > 7200 or len(os.listdir(TARGET)) > 4:
                    shutil.rmtree(p, ignore_errors=True)
        os.makedirs(base, exist_ok=True)
        procs, bins = [], {}
        for v in vs:
            prof, sub, fl = VARIANTS[v]
            td = os.path.join(base, v)
            bins[v] = os.path.join(td, sub, "libsim")
            if os.path.exists(os.path.join(td, ".done")) and os.path.exists(os.path.join(td, sub, "libnode.so")):
                continue
            e = env()
            e["CARGO_TARGET_DIR"] = td
            if fl:
                e["RUSTFLAGS"] = fl
            lf = open(os.path.join(base, v + ".log"), "w+")
            p = subprocess.Popen(["cargo", "build", "--offline", "--locked", "-q"] + prof, cwd=SIM, env=e,
                                 stdout=lf, stderr=subprocess.STDOUT)
            procs.append((v, p, lf, td))
        for v, p, lf, td in procs:
            if p.wait() != 0:
                lf.seek(0)
                log(lf.read()[-6000:])
                for _, q, _, _ in procs:
                    if q.poll() is None:
                        q.terminate()
                fail("the simulator (%s) does not build against /repo" % v)
            open(os.path.join(td, ".done"), "w").close()
        return bins


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: property=%s " % prop):])
    return out


def run_check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if prop not in PROPS:
        fail("unknown property " + prop)
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    vs = variants(prop)
    bins = build(vs)
    extra = ["--nodes", nodes(bins)] if prop == "C12" else []
    if prop == "C12":
        vs = ["opt3"]
    t1 = time.time()
    res, viol = [], None
    for k, v in enumerate(vs):
        runs, secs = runs_for(prop, tier, v)
        out = os.path.join(REPLAYS, "%s-%s-%s.json" % (prop, tier, v))
        for f in (out, out + ".replay"):
            if os.path.exists(f):
                os.unlink(f)
        # a different part of the seed space in every build
        s = (seed * 1000003 + k * 7919) & 0xFFFFFFFFFFFF
        cmd = [bins[v], "run", "--prop", prop, "--seed", str(s), "--runs", str(runs), "--secs", str(secs),
               "--workers", str(os.cpu_count() or 8), "--out", out, "--build", v] + extra
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 240, env=env())
        except subprocess.TimeoutExpired:
            fail("the simulator (%s) did not end" % v)
        if p.returncode != 0:
            log(p.stderr.decode(errors="replace")[-2000:])
            fail("the simulator (%s) ended with status %d" % (v, p.returncode))
        r = json.load(open(out))
        r["seed"] = s
        res.append(r)
        log("%s %s: %d runs, %d distinct, %.1f s, violation: %s" %
            (prop, v, r["runs"], r["distinct"], r["wall"], r["violation"] and r["violation"]["class"]))
        if r["violation"]:
            viol = r
            break
    nviol = 0
    if viol:
        nviol = 1
        rp = os.path.join(REPLAYS, "%s-%s-seed%d.replay" % (prop, viol["build"], seed))
        shutil.copy(viol["violation"]["replay"], rp)
        # the minimised file must fail again in a fresh process
        p = subprocess.run([bins[viol["build"]], "replay", rp] + extra, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(), timeout=120)
        if p.returncode != 1:
            log(p.stdout.decode(errors="replace")[-2000:])
            fail("a violation did not reproduce in a fresh process")
        print("%s: %s" % (viol["violation"]["class"], viol["violation"]["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    evidence(prop, tier, seed, res, t0, t1, nviol, bins)
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    sys.stdout.flush()
    sys.exit(1 if nviol else 0)


def evidence(prop, tier, seed, res, t0, t1, nviol, bins):
    P = PROPS[prop]
    runs = sum(r["runs"] for r in res)
    wall = sum(r["wall"] for r in res)
    faults, hits = {}, {}
    for r in res:
        for k, (n, h) in r["stats"].items():
            faults[k] = faults.get(k, 0) + n
            hits[k] = hits.get(k, 0) + h
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(r["distinct"] for r in res),
        "rule": P["rule"],
        "samples": [s for r in res for s in r["samples"]][:4],
        "runs_per_hour": int(runs / wall * 3600) if wall else 0,
        "seeds": [{"build": r["build"], "seed": r["seed"], "runs": r["runs"], "skipped": r["skips"],
                   "distinct": r["distinct"], "wall_s": r["wall"]} for r in res],
        "seeds_per_hour": int(runs / wall * 3600) if wall else 0,
        "simulated_time": {"unit": P.get("unit", "machine instructions executed one by one under the scheduler"),
                           "covered": faults.get("steps", 0)},
        "fault_kinds_injected": {k: {"times": faults.get(k, 0), "runs": hits.get(k, 0)} for k in P["faults"]},
        "probes": {k: {"times": v, "runs": hits[k]} for k, v in sorted(faults.items()) if k not in P["faults"]},
        "distinct_measure": "hash of the sequence of decisions (who ran, what was injected, at which instruction or "
                            "callback) together with the workload items of the run",
        "components": {"real": P["real"], "stub": P["stub"]},
        "builds": list(bins) if prop == "C12" else [r["build"] for r in res],
        "build_s": round(t1 - t0, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": P["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": nviol}
    tmp = os.path.join(EVIDENCE, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))


def replay(f):
    t = open(f).read()
    m = re.search(r"^build (\S+)", t, re.M)
    v = m.group(1) if m else "opt3"
    if v not in VARIANTS:
        fail("unknown build " + v)
    c12 = re.search(r"^prop C12$", t, re.M)
    bins = build(variants("C12") if c12 else [v])
    p = subprocess.run([bins[v], "replay", f] + (["--nodes", nodes(bins)] if c12 else []), env=env())
    sys.exit(p.returncode)


if __name__ == "__main__":
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        build(variants())
    elif len(sys.argv) == 3 and sys.argv[1] == "run":
        run_check(sys.argv[2])
    elif len(sys.argv) == 3 and sys.argv[1] == "replay":
        replay(sys.argv[2])
    else:
        log(__doc__)
        sys.exit(2)
