#!/usr/bin/env python3
"""check.py <property-id> | setup
Decides one property of /repo by symbolic execution of its compiled LLVM IR (see DESIGN.md).
exit 0: holds within the stated bounds; 1: violated (VIOLATION line); 2: no verdict."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import spec

REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
TC = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = min(8, os.cpu_count() or 1)
DEADLINE = {"quick": 780, "thorough": 3 * 3600}.get(TIER, 780)
T0 = time.time()


class NoVerdict(Exception):
    pass


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def files(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
        for d, ds, fs in os.walk(r):
            ds[:] = [x for x in ds if x not in ("target", ".git", ".cache")]
            out += [os.path.join(d, f) for f in fs]
    return out


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_PROFILE", "CARGO_ENCODED", "RUSTFLAGS", "RUSTC"))}
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("CARGO_BUILD_TARGET", None)
    e.update(kw)
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def cargo(args, cwd, **e):
    r = run(["cargo"] + args, cwd=cwd, env=env(**e))
    if r.returncode != 0:
        raise NoVerdict("cargo %s failed in %s:\n%s" % (" ".join(args), cwd, r.stdout[-3000:]))


def engine():
    src = os.path.join(HERE, "engine")
    key = sha(files(src), "engine")
    d = os.path.join(CACHE, "engine-" + key)
    exe = os.path.join(d, "symir")
    if not os.path.exists(exe):
        cargo(["clean", "--release", "-p", "symir", "--offline"], src, CARGO_TARGET_DIR=os.path.join(CACHE, "t-engine"))
        cargo(["build", "--release", "--offline"], src, CARGO_TARGET_DIR=os.path.join(CACHE, "t-engine"))
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(CACHE, "t-engine/release/symir"), exe + ".tmp")
        os.rename(exe + ".tmp", exe)
    return exe


def sysroot_bin(name):
    r = run(["rustc", "--print", "sysroot"], env=env())
    return os.path.join(r.stdout.strip(), "lib/rustlib", TRIPLE, "bin", name)


def harness_key():
    h = os.path.join(HERE, "harness")
    fs = files(os.path.join(h, "src"), os.path.join(h, "Cargo.toml"), os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"))
    for x in ("build.rs", "Cargo.lock", "rust-toolchain", "rust-toolchain.toml"):
        fs += files(os.path.join(REPO, x))
    return sha(fs, "harness-v3")


def prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(CACHE, prefix + "*")), key=os.path.getmtime)
    for d in ds[:-6]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


def build():
    """-> (directory with h.ll and the native dev harness).  Keyed by content, never by mtime."""
    key = harness_key()
    d = os.path.join(CACHE, "h-" + key)
    if os.path.exists(os.path.join(d, "done")):
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    h = os.path.join(HERE, "harness")
    td = os.path.join(CACHE, "t-harness")
    deps = os.path.join(td, TRIPLE, "debug", "deps")
    for f in glob.glob(os.path.join(deps, "harness-*")):
        os.remove(f)
    e = dict(CARGO_TARGET_DIR=td, RUSTFLAGS="-C no-prepopulate-passes")
    lock = os.path.join(h, "Cargo.lock")
    keep = open(lock, "rb").read()
    try:
        cargo(["clean", "--offline", "--target", TRIPLE, "-p", "bellframe", "-p", "harness"], h, **e)
        cargo(["rustc", "-q", "--offline", "--target", TRIPLE, "--bin", "harness", "--", "-C", "save-temps"], h, **e)
    finally:
        if open(lock, "rb").read() != keep:
            open(lock, "wb").write(keep)
    bc = glob.glob(os.path.join(deps, "harness-*.lto.after-restriction.bc"))
    if len(bc) != 1:
        raise NoVerdict("expected one whole-program bitcode file, found %r" % bc)
    exe = os.path.join(d, "harness")
    shutil.copy(os.path.join(td, TRIPLE, "debug", "harness"), exe)
    names = run([exe, "--list"]).stdout.split()
    r = run([sysroot_bin("opt"), "-strip-debug",
             "-passes=function(lower-invoke),internalize,globaldce,function(sroa,early-cse,simplifycfg),globaldce",
             "-internalize-public-api-list=" + ",".join(names), bc[0], "-S", "-o", os.path.join(d, "h.ll")])
    if r.returncode != 0:
        raise NoVerdict("opt failed: " + r.stdout[-2000:])
    for f in glob.glob(os.path.join(deps, "harness-*")):
        os.remove(f)
    open(os.path.join(d, "done"), "w").close()
    prune("h-", d)
    return d


def release_harness(d):
    exe = os.path.join(d, "harness-release")
    if not os.path.exists(exe):
        h = os.path.join(HERE, "harness")
        td = os.path.join(CACHE, "t-release")
        e = dict(CARGO_TARGET_DIR=td)
        cargo(["clean", "--offline", "--release", "-p", "bellframe", "-p", "harness"], h, **e)
        cargo(["build", "-q", "--offline", "--release", "--bin", "harness"], h, **e)
        shutil.copy(os.path.join(td, "release/harness"), exe + ".tmp")
        os.rename(exe + ".tmp", exe)
    return exe


def locked(f, *a):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        return f(*a)


def native(exe, harness, params, inputs, timeout=20, wrap=()):
    """Run one concrete input vector against the real code. -> (outcome, obs, stderr)"""
    cmd = list(wrap) + [exe, harness, ",".join(map(str, params)), ",".join(map(str, inputs))]
    def limit():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout, env={"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"},
                           preexec_fn=None if wrap else limit)
    except subprocess.TimeoutExpired:
        return "hang", [], ""
    m = re.findall(r'^\{"outcome".*\}$', r.stdout, re.M)
    if m:
        j = json.loads(m[-1])
        if wrap and r.returncode != 0:
            return "memory", [], r.stderr
        return j["outcome"], j.get("obs", []), r.stderr
    return "crash", [], "exit status %s\n%s" % (r.returncode, r.stderr)


def solve(exe, d, job, seed):
    left = DEADLINE - (time.time() - T0)
    t = min(job["timeout"], max(left, 5))
    out = os.path.join(d, "out-%s-%s-%s.json" % (job["h"], "_".join(map(str, job["p"])), os.getpid()))
    cmd = [exe, "--ll", os.path.join(d, "h.ll"), "--harness", job["h"], "--params", ",".join(map(str, job["p"])),
           "--timeout", "%.1f" % t, "--seed", str(seed), "--samples", str(job["samples"]), "--out", out,
           "--query-timeout", str(int(t * 1000)), "--max-steps", str(job["steps"])]
    if job["hash0"]:
        cmd.append("--hash0")
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=t + 60)
        res = json.load(open(out))
        os.remove(out)
    except Exception as ex:  # engine crash
        res = None
        err = "%s" % ex
        try:
            err += r.stderr[-500:]
        except Exception:
            pass
    if res is None:
        res = dict(status="inconclusive", error="engine failure: " + err, violations=[], samples=[], functions=[], covers={},
                   paths_ok=0, paths_panic=0, paths_dead=0, forks=0, merges=0, instructions=0, checks=0, checks_symbolic=0,
                   queries=0, sat=0, unsat=0, solver_s=0, wall_s=time.time() - t0, harness=job["h"], params=job["p"], terms=0)
    # validate the engine against the real code on concrete models of the explored paths
    nat = os.path.join(d, "harness")
    res["validated"] = 0
    res["mismatch"] = None
    for s in res["samples"]:
        oc, obs, se = native(nat, job["h"], job["p"], s["inputs"])
        want = {"panic": "panic-ok"}.get(s["outcome"], s["outcome"])
        if oc != want or obs != s["obs"]:
            res["mismatch"] = dict(inputs=s["inputs"], engine=[want, s["obs"]], native=[oc, obs], stderr=se[-300:])
            break
        res["validated"] += 1
    return res


def confirm(d, job, v):
    """Replay a counterexample on the real code; -> (confirmed, description)"""
    nat = os.path.join(d, "harness")
    tries = [("dev", nat, ())]
    kind = v["kind"]
    for name, exe, wrap in tries:
        oc, obs, se = native(exe, job["h"], job["p"], v["inputs"])
        if oc in ("ok", "assume", "panic-ok", "nosuch"):
            continue
        if oc == "hang" and kind != "steps":
            continue
        return True, "%s build: %s %s" % (name, oc, se.strip().replace("\n", " | ")[:300])
    if kind in ("memory", "ub", "check", "panic"):
        rel = locked(release_harness, d)
        oc, obs, se = native(rel, job["h"], job["p"], v["inputs"])
        if oc not in ("ok", "assume", "panic-ok", "nosuch", "hang"):
            return True, "release build: %s %s" % (oc, se.strip().replace("\n", " | ")[:300])
    if kind in ("memory", "ub") and shutil.which("valgrind"):
        oc, obs, se = native(nat, job["h"], job["p"], v["inputs"], 120, ("valgrind", "-q", "--error-exitcode=9"))
        if oc in ("memory", "crash"):
            return True, "valgrind: " + se.strip().replace("\n", " | ")[:300]
    return False, "native replay gives '%s'" % oc


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def demangle(n):
    # v0 names, reduced to their readable path components
    parts = re.findall(r"(?:^|[A-Za-z_])(\d+)", n)
    out, i = [], 0
    while i < len(n):
        m = re.match(r"(\d+)_?", n[i:])
        if m:
            k = int(m.group(1))
            s = n[i + m.end(1):]
            if s.startswith("_") and re.match(r"_[A-Za-z_]", s) and len(s) > k:
                s = s[1:] if s[1:1 + k].isidentifier() and not s[:k].isidentifier() else s
            w = s[:k]
            if k > 0 and re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", w):
                out.append(w)
                i += m.end(1) + k
                continue
        i += 1
    try:
        j = out.index("bellframe")
        out = out[j + 1:]
    except ValueError:
        pass
    return "::".join(x for x in out[:4])


def check(pid):
    prop = spec.CHECKS[pid]
    exe = locked(engine)
    d = locked(build)
    os.utime(d)
    jobs = [j for j in prop["jobs"] if TIER == "thorough" or j["tier"] == "q"]
    # longest first
    jobs.sort(key=lambda j: -j["cost"])
    results = []
    viol = None
    notes = []
    undone = []  # deepening runs which ran out of time: their bound is not claimed
    repdir = os.path.join(HERE, "replays")
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(solve, exe, d, j, SEED + i): j for i, j in enumerate(jobs)}
        for f in cf.as_completed(futs):
            j, r = futs[f], f.result()
            results.append((j, r))
            tag = "%s(%s)" % (j["h"], ",".join(map(str, j["p"])))
            if r["mismatch"]:
                notes.append("%s: engine/native mismatch %s" % (tag, json.dumps(r["mismatch"])[:500]))
            for v in r["violations"]:
                if viol:
                    break
                ok, how = confirm(d, j, v)
                if ok:
                    viol = (j, r, v, how)
                    for g in futs:
                        g.cancel()
                else:
                    notes.append("%s: counterexample not reproduced natively (%s): %s" % (tag, how, json.dumps(v)[:600]))
            if viol:
                break
            if r["status"] == "inconclusive" and j["deep"] and "time" in (r["error"] or "").lower() and not r["mismatch"]:
                undone.append(tag)
            elif r["status"] == "inconclusive":
                notes.append("%s: %s" % (tag, (r["error"] or "")[:400]))
            elif r["status"] == "holds":
                miss = [c for c in j["covers"] if not r["covers"].get(str(c))]
                if miss:
                    notes.append("%s: vacuous, cover(s) %s not reached" % (tag, miss))
        if viol:
            subprocess.run(["pkill", "-f", os.path.join(d, "out-") + ".*-%d.json" % os.getpid()], stderr=subprocess.DEVNULL)
    for j, r in results:
        if os.environ.get("VERIF_VERBOSE"):
            print("%-60s %-12s paths=%d+%d q=%d wall=%.1f sol=%.1f val=%d" % (
                "%s(%s)" % (j["h"], ",".join(map(str, j["p"]))), r["status"], r["paths_ok"], r["paths_panic"], r["queries"],
                r["wall_s"], r["solver_s"], r["validated"]), r["covers"])
    S = lambda k: sum(r[k] for _, r in results)
    fns = sorted({demangle(n) for _, r in results for n in r["functions"]})
    samples = []
    for j, r in results:
        for s in r["samples"][:1]:
            samples.append(dict(harness=j["h"], params=j["p"], inputs=s["inputs"], observed=s["obs"], outcome=s["outcome"]))
    ev = dict(
        property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="model_checking",
        coverage=dict(
            states=S("paths_ok") + S("paths_panic") + S("paths_dead") + S("forks"),
            transitions=S("instructions"),
            traces_validated_against_impl=S("validated"),
            samples=samples[:20],
            explanation="symbolic execution of the LLVM IR compiled from the working tree; states = symbolic path segments "
            "explored (branch forks + completed paths, each standing for every input satisfying its path condition), "
            "transitions = IR instructions executed symbolically, traces_validated_against_impl = solver models of explored "
            "paths re-run natively with identical outcome and observations",
            bounds=[dict(harness=j["h"], params=j["p"], bound=prop["bounds"].get(j["h"], "")) for j, r in sorted(results, key=lambda x: (x[0]["h"], x[0]["p"])) if r["status"] == "holds"],
            outside_bounds=prop.get("outside", ""),
            functions_encoded=fns,
            harness_runs=len(results),
            completed_paths=S("paths_ok") + S("paths_panic"),
            obligations=S("checks"), obligations_decided_by_solver=S("checks_symbolic"),
            queries=S("queries"), queries_sat=S("sat"), queries_unsat=S("unsat"),
            solver_s=round(S("solver_s"), 3),
            engine_s=round(S("wall_s"), 3),
        ),
        assumptions=spec.ASSUMPTIONS + prop.get("assumptions", []),
        wall_s=round(time.time() - T0, 2), violations=1 if viol else 0)
    if undone:
        ev["coverage"]["bounds_not_completed"] = undone
    if notes:
        ev["coverage"]["notes"] = notes
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)
    for k in known_findings():
        if k.get("property") == pid and k.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        j, r, v, how = viol
        os.makedirs(repdir, exist_ok=True)
        rp = os.path.join(repdir, "%s-%s-%s.json" % (pid, j["h"], "_".join(map(str, j["p"]))))
        json.dump(dict(property=pid, harness=j["h"], params=j["p"], inputs=v["inputs"], kind=v["kind"], check_id=v["id"],
                       message=v["msg"], confirmed_by=how, stack=v["stack"],
                       replay="%s %s %s %s" % (os.path.join(d, "harness"), j["h"], ",".join(map(str, j["p"])), ",".join(map(str, v["inputs"]))),
                       rebuild="python3 check.py replay " + rp), open(rp, "w"), indent=1)
        print("counterexample in %s(%s): %s %s inputs=%s; %s" % (j["h"], j["p"], v["kind"], v["msg"], v["inputs"], how))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if notes:
        for n in notes:
            print("NO-VERDICT", n)
        return 2
    for u in undone:
        print("not completed in time, bound not claimed:", u)
    print("property %s holds: %d harness runs, %d paths, %d queries, %.1fs solver, %.1fs" % (
        pid, len(results) - len(undone), S("paths_ok") + S("paths_panic"), S("queries"), S("solver_s"), time.time() - T0))
    return 0


def main():
    try:
        if sys.argv[1] == "setup":
            locked(engine)
            locked(build)
            return 0
        if sys.argv[1] == "replay":
            j = json.load(open(sys.argv[2]))
            d = locked(build)
            print(native(os.path.join(d, "harness"), j["harness"], j["params"], j["inputs"]))
            return 0
        return check(sys.argv[1])
    except NoVerdict as e:
        print("NO-VERDICT", e)
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
