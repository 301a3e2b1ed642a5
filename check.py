#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]  --  decide one property of /repo by symbolic execution.

1. compile the harness crate + /repo's current sources to LLVM IR (dev and release semantics);
2. run the symbolic executor (engine/, crate sx): every path of every entry, Z3 decides every branch,
   address and assertion that depends on symbolic values;
3. replay every counterexample natively (and, for memory errors, under Miri);
4. replay a sample of ordinary paths natively and compare the observed values (encoding validation);
5. write evidence/<PROPERTY>.json.
exit 0 held / 1 VIOLATION (reproduced) / 2 no verdict.
"""
import json, os, sys, subprocess, threading, time, glob, shutil, hashlib, random

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = "/repo"
BUILD = os.path.join(V, "build")
EVID = os.path.join(V, "evidence")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
ENV["RUSTFLAGS"] = "-Awarnings"
ENV["HOME"] = ENV.get("HOME", "/root")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
PROFILE_DIR = {"dev": "debug"}
ENV["RUSTC_WRAPPER"] = os.path.join(V, "rustc-wrap.sh")
NCPU = os.cpu_count() or 4


class NoVerdict(Exception):
    pass


HOOKED = {"c01", "c05"}  # features whose harness uses /repo's guarded hook
STRICT = {"c14"}  # encoded with reads of uninitialised memory marked (and each of them a violation, whether or not anything depends on it)


def fenv(feature, **kw):
    e = dict(ENV, **kw)
    if feature in HOOKED:
        e["RUSTFLAGS"] += " --cfg division_verif"
    return e


def run(cmd, env=ENV, cwd=V, timeout=850, **kw):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def llvm_bin():
    p = run(["rustc", "--print", "sysroot"])
    return os.path.join(p.stdout.strip(), "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def ensure_engine():
    exe = os.path.join(BUILD, "engine/release/sx")
    p = run(["cargo", "build", "-q", "--offline", "--release"], env=dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "engine")), cwd=os.path.join(V, "engine"))
    if p.returncode != 0 or not os.path.exists(exe):
        raise NoVerdict("the engine does not build:\n" + p.stderr[-3000:])
    return exe


def ensure_lock():
    dst = os.path.join(V, "harness/Cargo.lock")
    if not os.path.exists(dst):
        shutil.copyfile(os.path.join(V, "harness/lock.txt"), dst)


def forget(tdir, pdir):
    """make cargo rebuild /repo's crate and the harness whatever the file times say"""
    for pat in (".fingerprint/division_ecs*", ".fingerprint/h-*", "deps/h-*", "deps/libh*", "deps/h.*", "deps/replay*", "deps/libdivision_ecs-*", "deps/division_ecs-*"):
        for f in glob.glob(os.path.join(tdir, pdir, pat)):
            shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.unlink(f)


def build_ir(feature, profile, entries):
    pdir = PROFILE_DIR.get(profile, profile)
    tdir = os.path.join(BUILD, "ir-" + profile)
    forget(tdir, pdir)
    env, more = fenv(feature, CARGO_TARGET_DIR=tdir), []
    if feature in STRICT:
        # the same code with a mark on every read of a value that has to be initialised (rustc leaves it out at level 0)
        env["RUSTFLAGS"] += " -C no-prepopulate-passes -Z mir-opt-level=1"
        env["RUSTC_BOOTSTRAP"] = "1"
        more = ["--config", f"profile.{profile}.opt-level=1"]
    p = run(["cargo", "rustc", "-q", "--offline", "--bin", "replay", "--features", feature, "--profile", profile] + more + ["--", "-C", "save-temps", "-C", "linker=/bin/true", "--cfg", "sx_ir"],
            env=env, cwd=os.path.join(V, "harness"))
    if p.returncode != 0:
        raise NoVerdict(f"the harness does not compile against /repo ({profile}):\n" + p.stderr[-4000:])
    bcs = glob.glob(os.path.join(tdir, pdir, "deps", "*lto.input.bc"))
    if len(bcs) != 1:
        raise NoVerdict(f"expected one LTO module, found {bcs}")
    b = llvm_bin()
    out = os.path.join(BUILD, f"{feature}-{profile}")
    p = run([b + "/opt", "-passes=internalize,globaldce,function(sroa),globaldce", "-internalize-public-api-list=" + ",".join(entries), bcs[0], "-o", out + ".bc"])
    if p.returncode != 0:
        raise NoVerdict("opt: " + p.stderr[-2000:])
    p = run([b + "/llvm-dis", out + ".bc", "-o", out + ".ll"])
    if p.returncode != 0:
        raise NoVerdict("llvm-dis: " + p.stderr[-2000:])
    os.unlink(out + ".bc")
    for f in glob.glob(os.path.join(tdir, pdir, "deps", "*.bc")) + glob.glob(os.path.join(tdir, pdir, "deps", "*.rcgu.o")):
        try: os.unlink(f)
        except OSError: pass
    return out + ".ll"


def build_replay(feature, profile):
    prof = {"dev": "replaydev", "rel": "replayrel"}[profile]
    tdir = os.path.join(BUILD, "native-" + profile)
    forget(tdir, prof)
    p = run(["cargo", "build", "-q", "--offline", "--bin", "replay", "--features", feature, "--profile", prof],
            env=fenv(feature, CARGO_TARGET_DIR=tdir), cwd=os.path.join(V, "harness"))
    if p.returncode != 0:
        raise NoVerdict(f"the replayer does not compile ({profile}):\n" + p.stderr[-4000:])
    exe = os.path.join(BUILD, f"replay-{feature}-{profile}")
    shutil.copyfile(os.path.join(tdir, prof, "replay"), exe)
    os.chmod(exe, 0o755)
    return exe


def native(exe, entry, inputs, timeout=30):
    """-> (outcome, emitted values, text)"""
    try:
        p = subprocess.run([exe, entry] + [str(i) for i in inputs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout,
                           env=dict(ENV, RUST_BACKTRACE="0"), cwd="/", preexec_fn=limits)
    except subprocess.TimeoutExpired as e:
        return "TIMEOUT", [], "no answer within %d s" % timeout
    em = [int(l.split()[1]) for l in p.stdout.splitlines() if l.startswith("EMIT ")]
    text = (p.stdout[-1500:] + p.stderr[-1500:]).strip()
    for l in p.stdout.splitlines():
        if l.startswith("CHECK "):
            return l, em, text
        if l in ("ASSUME", "NOENTRY"):
            return l, em, text
    if p.returncode == 0 and p.stdout.rstrip().endswith("DONE"):
        return "DONE", em, text
    if p.returncode == 101:
        return "PANIC", em, text
    return f"CRASH rc={p.returncode}", em, text


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 20, 1 << 20))


def miri(feature, profile, entry, inputs):
    flags = "-Zmiri-disable-stacked-borrows -Zmiri-symbolic-alignment-check -Zmiri-ignore-leaks -Zmiri-disable-isolation"
    env = fenv(feature, RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS=flags, CARGO_TARGET_DIR=os.path.join(BUILD, "miri"))
    cmd = ["cargo", "miri", "run", "-q", "--offline", "--bin", "replay", "--features", feature]
    if profile == "rel":
        cmd += ["--profile", "rel"]
    try:
        p = run(cmd + ["--", entry] + [str(i) for i in inputs], env=env, cwd=os.path.join(V, "harness"), timeout=240)
    except subprocess.TimeoutExpired:
        return "TIMEOUT", ""
    t = p.stderr
    if "Undefined Behavior" in t:
        i = t.index("Undefined Behavior")
        return "UB", t[max(0, i - 20):i + 1200]
    if "CHECK " in p.stdout:
        return p.stdout[p.stdout.index("CHECK "):].splitlines()[0], t[-800:]
    if p.returncode == 0 and "DONE" in p.stdout:
        return "DONE", ""
    if p.returncode == 101 or "PANIC" in t:
        return "PANIC", t[-1200:]
    return f"CRASH rc={p.returncode}", t[-1500:]


def valgrind(exe, entry, inputs):
    try:
        p = run(["valgrind", "-q", "--error-exitcode=77", "--leak-check=no", exe, entry] + [str(i) for i in inputs], cwd="/", timeout=120)
    except (subprocess.TimeoutExpired, OSError):
        return "DONE", ""
    if p.returncode == 77 and "== " in p.stderr:
        return "MEMCHECK", p.stderr[:1500]
    return "DONE", ""


MEMORY = ("memory", "uninit", "alloc", "unreachable", "assume", "nounwind", "abort", "trap")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from properties_config import CONFIG
    cfg = CONFIG[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    feature = prop.lower()
    entries = list(cfg["quick"]) + (list(cfg.get("thorough", [])) if tier == "thorough" else [])
    secs = cfg.get("seconds", {}).get(tier, 480 if tier == "quick" else 700)
    for f in glob.glob(os.path.join(EVID, f"replay-{prop}-*")):
        os.unlink(f)
    sx = ensure_engine()
    ensure_lock()

    profiles = cfg.get("profiles", ["dev", "rel"])
    res, errs = {}, []

    def job(key, fn):
        def go():
            try:
                res[key] = fn()
            except NoVerdict as e:
                errs.append(str(e))
            except Exception as e:  # noqa
                errs.append(f"{key}: {e!r}")
        t = threading.Thread(target=go)
        t.start()
        return t

    ts = []
    hook_note = None

    def build_all():
        for p in profiles:
            ts.append(job(("ir", p), lambda p=p: build_ir(feature, p, entries)))
            ts.append(job(("nat", p), lambda p=p: build_replay(feature, p)))
        for t in ts:
            t.join()

    build_all()
    if errs and feature in HOOKED:
        # the guarded hook does not compile with this tree: go on with the entries that do without it
        hook_note = "guarded hook not usable, entries " + ", ".join(cfg["hooked"]) + " left out: " + errs[0][-600:]
        HOOKED.discard(feature)
        entries = [e for e in entries if e not in cfg["hooked"]]
        ts.clear(), errs.clear()
        build_all()
    if errs:
        raise NoVerdict("\n".join(errs))
    t_build = time.time() - t0

    reports = {}
    for k, p in enumerate(profiles):
        left = max(20, (secs - (time.time() - t0)) / (len(profiles) - k))
        out = os.path.join(BUILD, f"{feature}-{p}.json")
        cmd = [sx, "--ll", res[("ir", p)], "--threads", str(NCPU), "--seconds", str(int(left)), "--out", out, "--seed", str(seed),
               "--samples", str(cfg.get("samples", 24)), "--query-ms", "60000"]
        if feature in STRICT:
            cmd += ["--strict-loads"]
        if tier == "thorough":
            dump = os.path.join(BUILD, f"dump-{feature}-{p}")
            shutil.rmtree(dump, ignore_errors=True)
            os.makedirs(dump)
            cmd += ["--dump", dump, "--dump-n", "40"]
        for e in entries:
            cmd += ["--entry", e]
        r = run(cmd, timeout=left + 120)
        sys.stderr.write(r.stderr)
        if r.returncode != 0:
            raise NoVerdict(f"engine failed ({p}): {r.stderr[-2000:]}")
        reports[p] = json.load(open(out))

    known = load_known(prop)
    viols, unconfirmed, known_hit = [], [], set()
    problems, cut = [], []
    validated, mismatches, samples = 0, [], []
    agg = dict(paths=0, killed=0, forks=0, insts=0, sym_branches=0, checks_concrete=0, checks_solver=0, panics_caught=0)
    q = dict(sat=0, unsat=0, unknown=0, cache_hits=0, model_hits=0, solver_s=0.0)
    functions = set()
    per_entry = []
    seen_sig = set()
    for p in profiles:
        exe = res[("nat", p)]
        for e in reports[p]["entries"]:
            for k in agg:
                agg[k] += e[k]
            for k in q:
                q[k] += e["queries"][k]
            functions |= set(e["functions"])
            per_entry.append(dict(entry=e["entry"], profile=p, status=e["status"], paths=e["paths"], forks=e["forks"], insts=e["insts"],
                                  queries=e["queries"], covers=e["covers"], wall_s=e["wall_s"], bounds=cfg.get("bounds", {}).get(e["entry"], "")))
            # limits of time (of the whole run, or of one query) make the run less than exhaustive, which is reported;
            # anything the engine cannot encode makes it no answer at all
            errors = [x for x in e["errors"] if "solver: unknown" not in json.dumps(x)]
            late = e["status"] == "timeout" or e["queries"]["unknown"] > 0
            if late:
                cut.append(f"{p}:{e['entry']} after {e['paths']} paths" + (f", {e['queries']['unknown']} queries unanswered" if e["queries"]["unknown"] else ""))
            if e["status"] not in ("timeout", "complete") and (errors or not late):
                problems.append(f"{p}:{e['entry']}: {e['status']} {errors[:3]}")
            need = cfg.get("covers", {}).get(e["entry"], [1])
            miss = [c for c in need if str(c) not in e["covers"]]
            if miss and not e["violations"] and not late:
                problems.append(f"{p}:{e['entry']}: reachability witnesses {miss} never reached")
            tried = {}
            for v in e["violations"]:
                sig = (p, e["entry"], v["kind"], v["msg"])
                tried[sig] = tried.get(sig, 0) + 1
                if tried[sig] > 2 or (len(viols) >= 4 and sig in seen_sig):
                    continue
                seen_sig.add(sig)
                if len(viols) >= 8:
                    continue
                kf = match_known(known, e["entry"], v)
                if kf is not None:
                    known_hit.add(kf)
                    continue
                oc, em, text = native(exe, e["entry"], v["inputs"])
                how = f"native {p}"
                if oc == "DONE" and v["kind"] in MEMORY:
                    oc, text = valgrind(exe, e["entry"], v["inputs"])
                    how = f"valgrind {p}"
                if oc == "DONE" and v["kind"] == "nontermination":
                    # it does end: the run is longer than the engine's step limit, no more
                    cut.append(f"{p}:{e['entry']}: a run of more steps than the limit (ends natively)")
                    continue
                if oc == "DONE" or oc == "ASSUME":
                    oc, text = miri(feature, p, e["entry"], v["inputs"])
                    how = f"miri {p}"
                ok = oc not in ("DONE", "ASSUME", "NOENTRY") and not (how.startswith("miri") and oc == "TIMEOUT")
                rec = dict(property=prop, entry=e["entry"], profile=p, kind=v["kind"], msg=v["msg"], inputs=v["inputs"], stack=v["stack"],
                           reproduced=ok, how=how, outcome=oc, output=text,
                           command=f"python3 /verif/check.py --replay {feature} {p} {e['entry']} " + " ".join(map(str, v["inputs"])))
                (viols if ok else unconfirmed).append(rec)
            for s in e["samples"]:
                oc, em, text = native(exe, e["entry"], s["inputs"])
                validated += 1
                if oc != "DONE" or em != s["emits"]:
                    mismatches.append(dict(entry=e["entry"], profile=p, inputs=s["inputs"], encoded=s["emits"], native=em, outcome=oc))
                elif len(samples) < 12:
                    samples.append(dict(entry=e["entry"], profile=p, inputs=s["inputs"], observed=em[:24], path_constraints=s["constraints"]))
    cross = None
    if tier == "thorough":
        cross = cross_check([os.path.join(BUILD, f"dump-{feature}-{p}") for p in profiles])
        if cross["disagreements"]:
            problems.append(f"solvers disagree: {cross['disagreements'][:3]}")
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 1), violations=len(viols),
              assumptions=cfg.get("assumptions", []) + ASSUME,
              coverage=dict(states=agg["paths"] + agg["forks"], transitions=agg["insts"], traces_validated_against_impl=validated - len(mismatches),
                            samples=samples, exhaustive=not problems and not viols and not cut, cut_off_by_time_limit=cut, paths=agg["paths"], paths_discarded_by_assumption=agg["killed"],
                            panics_caught=agg["panics_caught"], symbolic_branches=agg["sym_branches"],
                            assertions_closed_without_solver=agg["checks_concrete"], assertions_sent_to_solver=agg["checks_solver"],
                            queries=q, solver=reports[profiles[0]]["z3"], functions_encoded=sorted(functions), entries=per_entry, build_s=round(t_build, 1),
                            hook=hook_note, cross_check=cross, unconfirmed=unconfirmed[:5], encoding_mismatches=mismatches[:5], problems=problems))
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for k in sorted(known_hit):
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    if viols:
        for i, r in enumerate(viols):
            path = os.path.join(EVID, f"replay-{prop}-{i}.json")
            json.dump(r, open(path, "w"), indent=1)
            print(f"  {r['entry']} [{r['profile']}] {r['kind']}: {r['msg']}  -> {r['how']}: {r['outcome']}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if unconfirmed:
        print("UNCONFIRMED counterexamples (the encoding is suspect):", json.dumps(unconfirmed[:2], indent=1)[:3000])
        return 2
    if mismatches:
        print("ENCODING MISMATCH:", json.dumps(mismatches[:2])[:3000])
        return 2
    if problems:
        print("NO VERDICT:", *problems, sep="\n  ")
        return 2
    if cut:
        print("INCOMPLETE, stopped by the time limit:", *cut, sep="\n  ")
    print(f"{prop} {tier}: held on everything explored: {agg['paths']} paths, {agg['insts']} instructions, {q['sat']}+{q['unsat']} queries, {validated} traces validated, {time.time()-t0:.0f} s")
    return 0


ASSUME = [
    "bounds: those of each entry (see coverage.entries[].bounds); nothing is claimed beyond them",
    "allocation never fails; heap addresses are aligned exactly as the requested layout and blocks never alias",
    "the encoding is the unoptimised LLVM IR rustc emits for /repo (after scalar replacement of locals); rustc's own translation and LLVM's sroa are trusted",
    "panic message formatting and the panic hook are not executed",
]


def load_known(prop):
    f = os.path.join(V, "known_findings.jsonl")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop:
                    out.append(d)
    return out


def match_known(known, entry, v):
    for i, k in enumerate(known):
        if k.get("entry") == entry and k.get("kind") == v["kind"] and k.get("msg") == v["msg"]:
            return i
    return None


def cross_check(dirs):
    """give a sample of the solver queries of this run to two other solvers"""
    files = []
    for d in dirs:
        files += glob.glob(d + "/**/*.smt2", recursive=True)
    files = sorted(files)
    random.Random(1).shuffle(files)
    files = files[:160]
    dis, n, unk = [], 0, 0
    lock = threading.Lock()

    def one(f):
        nonlocal n, unk
        txt = open(f).read()
        want = "unsat" if ".unsat" in f else "sat"
        for cmd in (["cvc5", "--tlimit=10000", f], ["z3-new", "-T:10", f]):
            try:
                r = run(cmd, timeout=30)
            except Exception:
                continue
            a = [l for l in r.stdout.split() if l in ("sat", "unsat")]
            with lock:
                if "(error" in r.stdout or not a:
                    unk += 1
                else:
                    n += 1
                    if a[0] != want:
                        dis.append(f"{cmd[0]} {f}: {a[0]}, z3: {want}")
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, files))
    return dict(queries=len(files), answers_agreeing=n - len(dis), inconclusive=unk, disagreements=dis, solvers=["cvc5 1.1.2", "z3 (newer release)"])


def setup():
    os.makedirs(BUILD, exist_ok=True)
    ensure_lock()
    ensure_engine()
    from properties_config import CONFIG
    f = sorted(CONFIG)[0].lower()
    ents = list(CONFIG[f.upper()]["quick"])
    for p in ("dev", "rel"):
        build_ir(f, p, ents)
        build_replay(f, p)
    e = ents[0]
    print("miri:", miri(f, "dev", e, [0] * 64)[0])


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            setup()
            sys.exit(0)
        if sys.argv[1] == "--replay":
            ensure_lock()
            exe = build_replay(sys.argv[2], sys.argv[3])
            o = native(exe, sys.argv[4], sys.argv[5:])
            print(o[0], o[1], o[2], sep="\n")
            if o[0] == "DONE":
                print(*miri(sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5:]), sep="\n")
            sys.exit(0)
        sys.exit(main())
    except NoVerdict as e:
        print("NO VERDICT:", e)
        sys.exit(2)
