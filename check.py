#!/usr/bin/env python3
"""Decides one property of /repo: check.py <property> [quick|thorough], or re-executes a recorded violation:
check.py replay <file>, or builds everything: check.py setup.

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken. Exit 2: no answer."""
import concurrent.futures, escape, fcntl, hashlib, json, os, re, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE="0")
for v in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC", "CARGO_INCREMENTAL"):
    ENV.pop(v, None)
BIN = {f"R{i:02}": ("rt", "rt") for i in range(1, 21)}
BIN.update({f"P{i:02}": ("pq", "pq") for i in range(1, 8)})
BIN.update({f"P{i:02}": ("pq", "sc") for i in range(8, 11)})
BIN["P11"] = ("pq", "pt")
BIN["P12"] = ("pq", "pq")
BIN["R21"] = BIN["R22"] = ("rt", "pr")
BIN["R23"] = ("rt", "sy")
BIN["R24"] = ("rt", "us")
BIN["R25"] = ("rt", "rt")
BIN["R27"] = ("pq", "hi")
BIN["R28"] = BIN["R29"] = ("rt", "rt")
# if the source of the schema tool cannot be included any more, its output still tells part of it
OUTSIDE = {"P08": ("pq", "pt"), "P09": ("pq", "pt")}
ALSO = {"pt": [("pq", "schematool")]}
# these properties are about the names of the definitions: that a name is missing is their violation
NAMES = {"P01", "P02", "R20"}
# these are about definitions: that one does not compile is their violation, if the same harness compiles with a few plain ones
DEFINITIONS = {"R20", "R23"}
# these are decided under an interpreter of the compiler's intermediate code, which reports undefined behaviour
INTERPRETED = {"R26"}
MEMORY = 20 << 30
# debug: with overflow checks and debug assertions; release: optimized, without them (R31)
PROFILE = "debug"


def note(*a):
    print(*a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


# ---- building ---------------------------------------------------------------------------------------------------

def sources(crate):
    """What the build of a harness crate uses of /repo, by content (not by time of modification)."""
    h = hashlib.sha256()
    roots = [REPO + "/runtime", REPO + "/Cargo.toml"]
    if crate == "pq":
        roots.append(REPO + "/parquet")
    for root in roots:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, dirs, fs in os.walk(root) for f in fs
            if "/target/" not in d + "/" and "/data" not in d and f.endswith((".rs", ".toml", ".lock", ".md")))
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as x:
                h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()


def build(crate, binary):
    os.makedirs(TARGET, exist_ok=True)
    with open(TARGET + "/.check-lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        manifest = f"{HERE}/harness/{crate}/Cargo.toml"
        optimized = ["--release"] if PROFILE == "release" else []
        stamp, now = f"{TARGET}/.stamp-{crate}" + "".join(optimized), sources(crate)
        try:
            old = open(stamp).read()
        except OSError:
            old = ""
        if old != now:
            # times of modification are no evidence: rebuild everything that depends on /repo
            packages = ["compact-thrift-runtime", crate] + (["compact-thrift-parquet"] if crate == "pq" else [])
            cmd = ["cargo", "clean", "--offline", "--manifest-path", manifest] + optimized
            for p in packages:
                cmd += ["-p", p]
            subprocess.run(cmd, env=ENV, capture_output=True)
        r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", manifest, "--bin", binary, "--message-format", "json"] + optimized,
                           env=ENV, capture_output=True, text=True)
        if r.returncode == 0:
            with open(stamp, "w") as f:
                f.write(now)
            return None
        errors = []
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                code = (m["message"].get("code") or {}).get("code")
                errors.append((m["target"]["name"], code, m["message"]["message"], m["message"]["rendered"]))
        note(r.stderr[-3000:])
        for e in errors[:10]:
            note(e[3])
        return errors


def build_all(prop):
    """(binary, errors) of what decides the property."""
    crate, binary = BIN[prop]
    errors = build_one(crate, binary)
    if prop in OUTSIDE and errors and all(e[0] == binary for e in errors):
        note(f"{prop}: the tool's source cannot be included; judging by its output")
        crate, binary = OUTSIDE[prop]
        errors = build_one(crate, binary)
    return binary, errors


def build_one(crate, binary):
    for b in ALSO.get(binary, []) + [(crate, binary)]:
        errors = build(*b)
        if errors is not None:
            return errors
    return None


def missing_names(prop, binary, errors):
    """The harness names every definition and its fields. If only such a name is missing, the mirror is broken."""
    coded = [e for e in errors if e[1]]
    if prop in NAMES and coded and all(e[0] == binary and e[1] in ("E0560", "E0609", "E0599", "E0026", "E0432", "E0412", "E0422", "E0425", "E0433") for e in coded):
        return "a name of the definitions is missing: " + coded[0][2]
    if prop in DEFINITIONS and errors and all(e[0] == binary for e in errors) and build("rt", "pr") is None:
        return "a definition does not compile: " + errors[0][3]
    return None


# ---- running ----------------------------------------------------------------------------------------------------

def watch_memory(child, limit, over):
    page = os.sysconf("SC_PAGE_SIZE")
    while child.poll() is None:
        try:
            with open(f"/proc/{child.pid}/statm") as f:
                if int(f.read().split()[1]) * page > limit:
                    over.append(True)
                    child.kill()
                    return
        except (OSError, ValueError, IndexError):
            return
        time.sleep(0.2)


def run(binary, args, env, timeout, limit=MEMORY):
    """(return code or None on timeout, output, memory exceeded)"""
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        child = subprocess.Popen([f"{TARGET}/{PROFILE}/{binary}"] + args, env=env, stdout=out, stderr=err, stdin=subprocess.DEVNULL)
        over = []
        w = threading.Thread(target=watch_memory, args=(child, limit, over), daemon=True)
        w.start()
        try:
            rc = child.wait(timeout)
        except subprocess.TimeoutExpired:
            child.kill()
            child.wait()
            rc = None
        w.join()
        out.seek(0)
        text = out.read().decode("utf-8", "replace")
        err.seek(0)
        e = err.read().decode("utf-8", "replace")
        if e.strip():
            note(e[-2000:])
        return rc, text, bool(over)


def in_flight(path):
    """What every worker was executing when the process ended."""
    names = open(path + ".names").read().split("\n")
    data = open(path, "rb").read()
    found = []
    for off in range(0, len(data), 1 << 16):
        t, job, n = struct.unpack_from("<QII", data, off)
        if t:
            found.append((t, names[job], list(struct.unpack_from(f"<{n}I", data, off + 16))))
    return [x[1:] for x in sorted(found)]


def how(rc, over):
    if over:
        return "takes memory without end"
    if rc is None or rc == 97:
        return "does not end"
    if rc < 0:
        try:
            name = signal.Signals(-rc).name
        except ValueError:
            name = str(-rc)
        return f"kills the process ({name})"
    return None


def again(binary, prop, tier, job, choices):
    """Re-executes one execution in a process of its own. None if it passes, else what happens."""
    with tempfile.TemporaryDirectory(prefix="mc-") as tmp:
        rc, out, over = run(binary, ["replay", prop, tier, job, ",".join(map(str, choices))], dict(ENV, MC_SCRATCH=tmp), 200, 8 << 30)
    bad = how(rc, over)
    if bad:
        return bad
    m = re.search(r"^REPRODUCED (.*)", out, re.S | re.M)
    return m.group(1).strip() if rc == 1 and m else None


def violation(prop, record):
    os.makedirs(HERE + "/replay", exist_ok=True)
    path = f"{HERE}/replay/{prop}.json"
    with open(path, "w") as f:
        json.dump(record, f, indent=1)
    note(f"{prop}: {record['detail'][:3000]}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def findings():
    known = {}
    try:
        for line in open(HERE + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known[m.group(1), m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return known


def evidence(prop, tier, rep, violations, started, extra=None):
    cov = {"states": rep.get("states", 0), "transitions": rep.get("transitions", 0),
           "traces_validated_against_impl": rep.get("traces", 0), "executions": rep.get("executions", 0),
           "jobs": rep.get("jobs", 0), "outcomes": rep.get("outcomes", {}), "bounds": rep.get("bounds", []),
           "samples": rep.get("samples", [])[:12], "exhaustive": bool(rep) and not violations}
    cov.update(extra or {})
    doc = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
           "coverage": cov,
           "assumptions": ["behaviour outside the stated bounds is not decided",
                           "the reference model of the compact protocol and of the Parquet definition in harness/core and tools/parquet.idl is right"],
           "wall_s": round(time.time() - started, 2), "violations": violations}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    path = f"{HERE}/evidence/{prop}.json"
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(path + ".tmp", path)


def explore(prop, tier, limit):
    """(report, violations, keys of known findings)"""
    binary, errors = build_all(prop)
    if errors is not None:
        name = missing_names(prop, binary, errors)
        if name is None:
            raise NoAnswer("the harness does not build against /repo")
        return {}, [{"property": prop, "tier": tier, "build": True, "detail": name}], []
    with tempfile.TemporaryDirectory(prefix="mc-") as tmp:
        slots = tmp + "/slots"
        rc, out, over = run(binary, ["run", prop, tier], dict(ENV, MC_SLOTS=slots, MC_SCRATCH=tmp), limit)
        m = re.search(r"^REPORT (.*)$", out, re.M)
        if rc == 0 and m:
            rep = json.loads(m.group(1))
        else:
            bad = how(rc, over)
            if bad is None:
                raise NoAnswer(f"the explorer ended with code {rc}")
            note(f"{prop}: the exploration {bad}; re-executing what was in flight")
            for job, choices in in_flight(slots):
                what = again(binary, prop, tier, job, choices)
                if what:
                    return {"samples": [f"{job} {choices}"]}, [{"property": prop, "tier": tier, "job": job, "choices": choices, "detail": f"{job} {choices}: {what}"}], []
            raise NoAnswer("no single execution reproduces it")
    if rep["engine_error"]:
        raise NoAnswer("engine: " + rep["engine_error"])
    bad = list(rep["violations"])
    known = findings()
    told = []
    for key, detail in sorted(rep["findings"].items()):
        if (prop, key) in known:
            told.append(key)
        else:
            bad.append({"job": "finding " + key, "choices": None, "detail": detail})
    note(f"{prop} {tier}: {rep['executions']} executions, {rep['states']} states, {rep['transitions']} transitions, {rep['traces']} comparisons in {rep['wall']} s")
    if bad and bad[0]["choices"] is not None:
        bad[0]["reproduced"] = again(binary, prop, tier, bad[0]["job"], bad[0]["choices"])
    return rep, [dict(v, property=prop, tier=tier) for v in bad], told


def check(prop, tier):
    started = time.time()
    rep, bad, told = explore(prop, tier, 780 if tier == "quick" else 4 * 3600)
    known = findings()
    for key in told:
        print(f"KNOWN-FINDING: property={prop} {known[prop, key]}", flush=True)
    evidence(prop, tier, rep, len(bad), started, {"known_findings": told} if rep.get("executions") is not None else rep)
    if bad:
        violation(prop, bad[0])
        return 1
    return 0


# ---- in optimized builds -------------------------------------------------------------------------------------------

# the ones whose thorough exploration takes more than a few minutes are explored as in quick
# and of those the ones whose quick exploration takes long are left to thorough
LONGEST = {"R03", "R07", "R08", "R27", "R28", "P12"}
LONG = {"R03", "R08", "R09", "R10", "R11", "R12", "R13", "R16", "R17", "R18", "R19", "R20", "R21", "R22", "R27", "R28", "P12"}


def check_optimized(prop, tier):
    """What decides the other properties, once more, compiled as users compile."""
    global PROFILE
    PROFILE = "release"
    started = time.time()
    limit = started + (780 if tier == "quick" else 4 * 3600)
    total, seen, samples, bounds, skipped = {}, {}, [], [], []
    for p in sorted(BIN):
        of = "quick" if p in LONG else tier
        if tier == "quick" and p in LONGEST:
            continue
        if tier == "quick" and time.time() > started + 500:
            skipped.append(f"not explored, for lack of time: {p}")
            continue
        try:
            rep, bad, _ = explore(p, of, max(1, limit - time.time()))
        except NoAnswer as e:
            # what cannot be included without optimization cannot be here either
            if p in ("P08", "P09", "P10"):
                skipped.append(f"{p}: {e}")
                continue
            raise
        if bad and time.time() > limit:
            raise NoAnswer("it takes too long")
        if bad and bad[0].get("build"):
            raise NoAnswer(bad[0]["detail"])
        for k in ("executions", "states", "transitions", "traces", "jobs"):
            total[k] = total.get(k, 0) + (rep.get(k) or 0)
        seen[f"executions of {p} {of}"] = rep.get("executions") or 0
        samples += [f"{p}: {x}" for x in rep.get("samples", [])[:1]]
        bounds.append(f"{p} {of}")
        if bad:
            evidence(prop, tier, dict(total, outcomes=seen, samples=samples, bounds=["optimized, without debug assertions and overflow checks: " + ", ".join(bounds)]), len(bad), started)
            violation(prop, dict(bad[0], property=prop, of=p, tier=of, detail=f"optimized, {p}: {bad[0]['detail']}"))
            return 1
    evidence(prop, tier, dict(total, outcomes=seen, samples=samples, bounds=["optimized, without debug assertions and overflow checks, what decides " + ", ".join(bounds)] + skipped), 0, started)
    note(f"{prop} {tier}: {total['executions']} executions in {time.time() - started:.1f} s")
    return 0


# ---- under the interpreter ---------------------------------------------------------------------------------------

STRICT, LENIENT, NO_ALIASING = "", "-Zmiri-tree-borrows", "-Zmiri-disable-stacked-borrows"


def miri_env(flags):
    env = {k: v for k, v in ENV.items() if k != "RUSTC_WRAPPER"}
    return dict(env, RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_TARGET_DIR=TARGET + "/miri", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks " + flags)


def miri(args, timeout, flags=STRICT):
    return run_to_end(["cargo", "miri", "run", "--offline", "-q", "--manifest-path", HERE + "/harness/ub/Cargo.toml", "--"] + args, miri_env(flags), timeout)


def run_to_end(cmd, env, timeout):
    """(return code or None on timeout, stdout, stderr)"""
    with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
        child = subprocess.Popen(cmd, env=env, stdout=out, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = child.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(child.pid, signal.SIGKILL)
            child.wait()
            rc = None
        out.seek(0)
        err.seek(0)
        return rc, out.read().decode("utf-8", "replace"), err.read().decode("utf-8", "replace")


def miri_jobs(tier):
    """The names of the jobs; builds the harness."""
    os.makedirs(TARGET + "/miri", exist_ok=True)
    with open(TARGET + "/miri/.check-lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp, now = TARGET + "/miri/.stamp", sources("pq")
        try:
            old = open(stamp).read()
        except OSError:
            old = ""
        if old != now:
            subprocess.run(["cargo", "clean", "--offline", "--manifest-path", HERE + "/harness/ub/Cargo.toml",
                            "-p", "compact-thrift-runtime", "-p", "compact-thrift-parquet", "-p", "ub"], env=miri_env(STRICT), capture_output=True)
        rc, out, err = miri(["list", tier], 800)
        if rc != 0:
            note(err[-3000:])
            raise NoAnswer("the harness does not build against /repo or does not run under the interpreter")
        with open(stamp, "w") as f:
            f.write(now)
        return re.findall("^JOB (.*)$", out, re.M)


def undefined(err):
    m = re.search(r"^error: (Undefined Behavior: .*?)(?=^\S*error: aborting|\Z)", err, re.S | re.M)
    return m.group(1).strip() if m else None


def is_undefined(tier, job, limit):
    """(number of the execution, what is undefined in it) of the first execution of the job that is undefined. What only
    one of the two models of aliasing rejects does not count."""
    for flags in (STRICT, LENIENT, NO_ALIASING):
        rc, out, err = miri(["run", tier, job, "trace"], limit, flags)
        what = undefined(err)
        if what:
            n = re.findall(r"^EXECUTION (\d+)$", out, re.M)
            found = int(n[-1]) if n else 0, what
            if flags != STRICT or not re.search(r"Stacked Borrows|borrow stack|<\d+>|<\?|protect", what):
                return found, None
    m = done_line(out) if rc == 0 else None
    return None, m


def done_line(out):
    m = re.search(r"^DONE (\d+) (\d+) (\d+)$", out, re.M)
    return m and [int(x) for x in m.groups()]


def escapes():
    try:
        return escape.explore(REPO, TARGET + f"/escape-{os.getpid()}", miri_env, undefined)
    except (escape.Unavailable, subprocess.TimeoutExpired) as e:
        note(f"the small programs are not explored: {e}")
        return {"not explored": str(e)[-200:]}, None


def check_undefined(prop, tier):
    started = time.time()
    names = miri_jobs(tier)
    end = started + (480 if tier == "quick" else 4 * 3600)
    done, suspects, failed = {}, [], []
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for job, (rc, out, err) in zip(names, pool.map(lambda j: miri(["run", tier, j], max(1, end - time.time())), names)):
            if rc == 0 and done_line(out):
                done[job] = done_line(out)
            elif rc not in (0, None) and undefined(err):
                suspects.append(job)
            else:
                note(f"{job}: {rc} {err[-1500:]}")
                failed.append(job)
    bad = []
    for job in suspects:
        found, passed = is_undefined(tier, job, 120 if tier == "quick" else 3600)
        if found:
            bad.append((job, found))
            break
        if passed:
            done[job] = passed
            note(f"{job}: only the stricter model of aliasing rejects it")
        else:
            failed.append(job)
    total = [sum(x[k] for x in done.values()) for k in range(3)]
    rep = {"executions": total[0], "states": total[0], "transitions": total[1], "traces": total[2], "jobs": len(names),
           "outcomes": {"executions without undefined behaviour": total[0], "jobs with undefined behaviour": len(bad)},
           "bounds": [f"{len(names)} jobs, every sequence of choices of each executed under Miri (Stacked Borrows; Tree Borrows decides where they differ)",
                      "an execution counts as a state, a choice as a transition, a value looked at afterwards as a trace"],
           "samples": [f"{job}: {n[0]} executions" for job, n in sorted(done.items(), key=lambda x: -x[1][0])]}
    if bad:
        job, (n, what) = bad[0]
        evidence(prop, tier, rep, 1, started)
        violation(prop, {"property": prop, "tier": tier, "job": job, "execution": n, "detail": f"{job}, execution {n}: {what}"})
        return 1
    if failed:
        raise NoAnswer(f"no result for {failed}")
    report, found = escapes()
    rep["samples"] = [f"small programs: {report}"] + rep["samples"]
    rep["bounds"].append("a family of small programs (18 types and 2 functions read from slices and streams, inputs, errors and field names; data in an array, a vector or "
                         "shared, that goes out of scope, is overwritten, released, grown or used by another thread; generated values cloned or used across threads): "
                         "those that the compiler accepts are executed under Miri")
    rep["executions"] += report.get("executed", 0)
    rep["states"] += report.get("programs", 0)
    if found:
        evidence(prop, tier, rep, 1, started)
        violation(prop, {"property": prop, "tier": tier, "program": found[0], "detail": f"the compiler accepts a safe program ({found[0]}) with {found[1]}"})
        return 1
    evidence(prop, tier, rep, 0, started)
    note(f"{prop} {tier}: {total[0]} executions, {total[1]} choices in {time.time() - started:.1f} s")
    return 0


# ---- on other platforms --------------------------------------------------------------------------------------------

PLATFORMS = {"quick": ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"],
             "thorough": ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu", "i586-unknown-linux-gnu", "powerpc-unknown-linux-gnu", "aarch64-unknown-linux-gnu"]}
HOST = "x86_64-unknown-linux-gnu"
OPTIMIZED, VECTORS = HOST + ", optimized", HOST + ", optimized with AVX2"
BUILDS = {HOST: ("debug", [], ""), OPTIMIZED: ("release", ["--release"], ""), VECTORS: ("release", ["--release"], "-C target-cpu=x86-64-v3")}


def builds():
    """What this machine can execute by itself, apart from what the others are compared with."""
    try:
        flags = open("/proc/cpuinfo").read().split()
    except OSError:
        flags = []
    return [OPTIMIZED] + ([VECTORS] if {"avx2", "bmi2", "fma", "movbe"} <= set(flags) else [])


def depth(target, tier):
    """More is explored where nothing is interpreted."""
    return {"quick": "deep", "thorough": "deeper"}.get(tier, tier) if target in BUILDS else tier


def on_platform(target, args, timeout):
    """The harness, compiled for this machine or run under the interpreter for another one."""
    crate = ["--offline", "-q", "--manifest-path", HERE + "/harness/pf/Cargo.toml"]
    home = f"{TARGET}/platform/{target.replace(', ', '-').replace(' ', '-')}"
    os.makedirs(home + "/cache", exist_ok=True)
    if target in BUILDS:
        profile, options, flags = BUILDS[target]
        if args[0] == "list":
            rc, out, err = run_to_end(["cargo", "build"] + crate + ["--target-dir", home] + options, dict(ENV, RUSTFLAGS=flags) if flags else dict(ENV), timeout)
            if rc != 0:
                return rc, out, err
        return run_to_end([f"{home}/{profile}/pf"] + args, dict(ENV), timeout)
    env = dict(miri_env("-Zmiri-disable-stacked-borrows -Zmiri-disable-validation"), CARGO_TARGET_DIR=home, XDG_CACHE_HOME=home + "/cache")
    return run_to_end(["cargo", "miri", "run", "--target", target] + crate + ["--"] + args, env, timeout)


def build_on(target, tier):
    """The names of the jobs, and None or what does not compile for this target."""
    home = f"{TARGET}/platform/{target.replace(', ', '-').replace(' ', '-')}"
    os.makedirs(home, exist_ok=True)
    with open(home + "/.check-lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp, now = home + "/.stamp", sources("pq")
        try:
            old = open(stamp).read()
        except OSError:
            old = ""
        if old != now:
            for extra in ([], ["--release"] if target in BUILDS else ["--target", target]):
                subprocess.run(["cargo", "clean", "--offline", "--manifest-path", HERE + "/harness/pf/Cargo.toml", "--target-dir", home,
                                "-p", "compact-thrift-runtime", "-p", "compact-thrift-parquet", "-p", "pf"] + extra, env=miri_env(STRICT), capture_output=True)
        rc, out, err = on_platform(target, ["list", tier], 600)
        if rc != 0:
            m = re.search(r"^error: could not compile `(compact-thrift-\w+|pf)`", err, re.M)
            if m and target != HOST:
                return [], "\n".join(x for x in err.splitlines() if x.startswith("error"))[:500]
            note(err[-3000:])
            raise NoAnswer(f"the harness does not build against /repo or does not run for {target}")
        with open(stamp, "w") as f:
            f.write(now)
        return re.findall("^JOB (.*)$", out, re.M), None


def observations(target, tier, jobs, timeout):
    """What each job observed there: a digest, or None and the error of the interpreter."""
    rc, out, err = on_platform(target, ["run", tier] + jobs, max(1, timeout))
    found = {job: (int(n), int(c), digest) for n, c, digest, job in re.findall(r"^DONE (\d+) (\d+) (\w+) (.*)$", out, re.M)}
    if len(found) == len(jobs):
        return found, None
    what = undefined(err) or (f"ends by signal {-rc}" if rc is not None and rc < 0 and target in BUILDS else None)
    return found, (what or f"return code {rc}: {err[-800:]}", [j for j in jobs if j not in found], bool(what))


def first_difference(target, tier, job, timeout):
    shown = []
    for t in (HOST, target):
        rc, out, err = on_platform(t, ["show", tier, job], timeout)
        shown.append(out.splitlines())
    for a, b in zip(*shown):
        if a != b:
            return f"{job}, execution {a.split(':')[0]}: {HOST}: {a[:600]} | {target}: {b[:600]}"
    return f"{job}: not shown again in {timeout} s" if len(shown[0]) != len(shown[1]) else None


def check_platforms(prop, tier):
    started = time.time()
    limit = started + (600 if tier == "quick" else 4 * 3600)
    targets = PLATFORMS[tier] + builds()
    names = {x: build_on(HOST, x)[0] for x in (tier, depth(HOST, tier))}
    jobs = names[tier]
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        built = dict(zip(targets, pool.map(lambda t: build_on(t, tier)[1], targets)))
        want = {}
        for x, of in names.items():
            for job, (got, problem) in zip(of, pool.map(lambda j: observations(HOST, x, [j], limit - time.time()), of)):
                if problem:
                    raise NoAnswer(f"on this machine, {job}: {problem}")
                want[x, job] = got[job]
        bad = [{"target": t, "detail": f"does not compile for {t}: {e}"} for t, e in built.items() if e]
        size = 4 if tier == "quick" else 1
        tasks = [(t, jobs[i::(len(jobs) + size - 1) // size]) for i in range((len(jobs) + size - 1) // size) for t in PLATFORMS[tier] if not built[t]]
        tasks += [(t, [j]) for t in builds() if not built[t] for j in names[depth(t, tier)]]
        differ, failed, done = [], [], []
        for (t, part), (got, problem) in zip(tasks, pool.map(lambda x: observations(x[0], depth(x[0], tier), x[1], limit - time.time()), tasks)):
            done += [(t, j, x) for j, x in got.items()]
            differ += [(t, j) for j, x in got.items() if x != want[depth(t, tier), j]]
            if problem:
                what, left, is_undefined_there = problem
                if is_undefined_there:
                    bad.append({"target": t, "job": left[0], "detail": f"on {t}, {left[0]}: {what[:600]}"})
                elif "unsupported operation" in what:
                    note(f"{t}: {left} cannot be interpreted: {what}")
                else:
                    failed.append((t, left, what))
    for t, j in differ[:1]:
        bad.append({"target": t, "job": j, "detail": first_difference(t, depth(t, tier), j, 240 if tier == "quick" else 7200) or f"{j} on {t} differs from {HOST}"})
    wrong = [j for j in ("parquet/ranges", "parquet/chunks") if "WRONG" in on_platform(HOST, ["show", tier, j], 300)[1]]
    if wrong:
        bad.append({"target": HOST, "job": wrong[0], "detail": f"{wrong[0]} is wrong on {HOST}"})
    n = [sum(x[k] for _, _, x in done) for k in (0, 1)]
    rep = {"executions": n[0], "states": n[0], "transitions": n[1], "traces": n[0], "jobs": len(done),
           "outcomes": {"jobs with the same observations": len(done) - len(differ), "jobs with other observations": len(differ)},
           "bounds": [f"{len(jobs)} jobs, every sequence of choices of each, executed on {HOST} and interpreted for {', '.join(PLATFORMS[tier])}",
                      f"{len(names[depth(HOST, tier)])} jobs with every byte of every encoding changed to every other, executed on {HOST} and on {'; '.join(builds())}",
                      "an execution on another platform counts as a state, and as a trace replayed on this one"],
           "samples": [f"{t} {j}: {x[0]} executions, digest {x[2]}" for t, j, x in sorted(done, key=lambda x: -x[2][0])]}
    if bad:
        evidence(prop, tier, rep, 1, started)
        violation(prop, dict(bad[0], property=prop, tier=depth(bad[0]["target"], tier)))
        return 1
    if failed:
        raise NoAnswer(f"no result: {failed}")
    evidence(prop, tier, rep, 0, started)
    note(f"{prop} {tier}: {n[0]} executions, {n[1]} choices in {time.time() - started:.1f} s")
    return 0


def replay(path):
    global PROFILE
    v = json.load(open(path))
    if v.get("of"):
        PROFILE = "release"
        v["property"] = v["of"]
    if v["property"] == "R30":
        build_on(HOST, v["tier"])
        e = build_on(v["target"], v["tier"])[1] if v["target"] != HOST else None
        what = e or (first_difference(v["target"], v["tier"], v["job"], 7200) if v.get("job") else None)
        if not what and v.get("job") and "WRONG" in on_platform(v["target"], ["show", v["tier"], v["job"]], 7200)[1]:
            what = v["job"] + " is wrong"
        print(what or "not reproduced")
        return 1 if what else 0
    if v.get("program"):
        found = escapes()[1]
        print(f"{found[0]}: {found[1]}" if found else "not reproduced")
        return 1 if found else 0
    if v["property"] in INTERPRETED:
        miri_jobs(v["tier"])
        found, _ = is_undefined(v["tier"], v["job"], 3600)
        print(f"execution {found[0]}: {found[1]}" if found else "not reproduced")
        return 1 if found else 0
    binary, errors = build_all(v["property"])
    if v.get("build") or errors is not None:
        print("the build fails" if errors is not None else "the build passes")
        return 1 if errors is not None else 0
    if v["choices"] is None:
        return check(v["property"], v["tier"])
    what = again(binary, v["property"], v["tier"], v["job"], v["choices"])
    print(what or "not reproduced")
    return 1 if what else 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "setup":
            global PROFILE
            bad = [b for b in (("rt", "rt"), ("rt", "pr"), ("rt", "sy"), ("rt", "us"), ("pq", "pq"), ("pq", "sc"), ("pq", "pt"), ("pq", "hi"), ("pq", "schematool")) if build(*b) is not None]
            if bad:
                raise NoAnswer(f"{bad} do not build")
            miri_jobs("quick")
            PROFILE = "release"
            for b in (("rt", "rt"), ("rt", "pr"), ("rt", "sy"), ("rt", "us"), ("pq", "pq"), ("pq", "sc"), ("pq", "pt"), ("pq", "hi"), ("pq", "schematool")):
                build(*b)
            return 0
        if a[0] == "replay":
            return replay(a[1])
        return (check_undefined if a[0] in INTERPRETED else {"R30": check_platforms, "R31": check_optimized}.get(a[0], check))(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except NoAnswer as e:
        note(f"no answer: {e}")
        return 2


sys.exit(main())
