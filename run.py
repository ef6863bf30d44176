#!/usr/bin/env python3
"""Decides the properties of properties.jsonl: see DESIGN.md.

  run.py setup                 build the harness
  run.py check <id>            decide one property (VERIF_TIER, VERIF_SEED)
  run.py replay <file>         validate a saved trace again

Exit 0: held on everything explored.  1: a VIOLATION line.  2: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
TARGET = os.path.join(BUILD, "target")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"


class CheckError(Exception):
    """The check itself failed: neither held nor violated."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


print_lock = threading.Lock()
T0 = time.time()


def log(msg):
    with print_lock:
        print(f"[{time.time() - T0:6.1f}s] {msg}", flush=True)


# ---------------------------------------------------------------- building

def build(release=False):
    cmd = ["cargo", "build", "--offline", "--quiet"] + (["--release"] if release else [])
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError("the harness does not build:\n" + r.stderr[-3000:])
    return os.path.join(TARGET, "release" if release else "debug", "fv")


# ---------------------------------------------------------------- TLC

TLC_STATS = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def tlc(work, module, cfg, extra=(), env=None, workers=4, timeout=1500, heap=None, ok_codes=(0,)):
    """Runs TLC in a directory of its own; returns (exit code, output)."""
    d = os.path.join(work, f"tlc-{module}-{cfg}-{threading.get_ident()}-{time.monotonic_ns()}")
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    out = os.path.join(d, "out")
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m"] + ([f"-Xmx{heap}"] if heap else ["-Xmx6g"]) + [
        "-Djava.io.tmpdir=" + d, "-cp", TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
        "-noGenerateSpecTE", "-config", cfg + ".cfg", *extra, module + ".tla"]
    with open(out, "wb") as o:
        try:
            r = subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
            code = r.returncode
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC took more than {timeout} s on {module}/{cfg}")
    text = open(out, errors="replace").read()
    if code not in ok_codes:
        i = max(text.find("Error:"), 0)
        raise CheckError(f"TLC failed on {module}/{cfg} (exit {code}):\n" + text[i:i + 1500])
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return code, text, d


def stats(text):
    m = None
    for m in TLC_STATS.finditer(text):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


class Ctx:
    """One run of one check."""

    def __init__(self, pid, work):
        self.pid, self.work = pid, work
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.events = 0
        self.counts, self.mc, self.samples, self.canaries = {}, [], [], 0
        self.refuted = []
        self.generated, self.families, self.known, self.extra = {}, [], [], {}
        self.violations = []
        self.bins = {}
        self.seed = SEED

    def bin(self, release=False):
        with self.lock:
            if release not in self.bins:
                t = time.time()
                self.bins[release] = build(release)
                log(f"built the harness{' (release)' if release else ''} in {time.time() - t:.1f} s")
            return self.bins[release]

    def violation(self, what, replay):
        with self.lock:
            self.violations.append((what, replay))


def replay_path(ctx, name):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{ctx.pid}-{name}.json")


# ---------------------------------------------------------------- steps

def model_check(ctx, module, cfg, workers=4, timeout=1500, heap=None):
    """A configuration of the specification in which TLC must find no error."""
    t = time.time()
    code, text, d = tlc(ctx.work, module, cfg, workers=workers, timeout=timeout, heap=heap)
    gen, distinct = stats(text)
    if distinct == 0 or "Model checking completed. No error has been found." not in text:
        raise CheckError(f"TLC did not complete {module}/{cfg}:\n" + text[-2000:])
    with ctx.lock:
        ctx.states += distinct
        ctx.transitions += gen
        ctx.mc.append({"spec": f"{module}/{cfg}", "states": distinct, "transitions": gen, "s": round(time.time() - t, 1)})
    log(f"specification {module}/{cfg}: {distinct} states, no error, {time.time() - t:.1f} s")
    shutil.rmtree(d, ignore_errors=True)


def refute(ctx, module, cfg, timeout=300):
    """A wrong design, in which TLC must find an error: the invariants are not vacuous."""
    t = time.time()
    code, text, d = tlc(ctx.work, module, cfg, workers=1, timeout=timeout, ok_codes=(11, 12))
    m = re.search(r"Error: (Invariant \w+ is violated|Deadlock reached)", text)
    if not m:
        raise CheckError(f"TLC did not refute {module}/{cfg}:\n" + text[-2000:])
    with ctx.lock:
        ctx.refuted.append({"spec": f"{module}/{cfg}", "error": m.group(1)})
    log(f"specification {module}/{cfg} is refuted, as it must be: {m.group(1)}, {time.time() - t:.1f} s")
    shutil.rmtree(d, ignore_errors=True)


def known_findings():
    """The findings of known_findings.txt: property -> [(demonstration, what fails)]"""
    out = {}
    for line in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r"known: property=(\w+) (\S+) (.*)", line)
        if m:
            out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out


def known(ctx, finding, what):
    """A recorded finding: is it still there?"""
    try:
        r = subprocess.run([ctx.bin(), "known", finding], capture_output=True, text=True, errors="replace", timeout=120, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        raise CheckError(f"the demonstration of {finding} hangs")
    if r.stdout.strip() == "THERE":
        ctx.known.append(what)
    elif r.stdout.strip() != "GONE":
        raise CheckError(f"the demonstration of {finding}: {r.returncode} {r.stdout[-200:]} {r.stderr[-500:]}")


def generate(ctx, what, module, cfg, simulate=None, depth=None, keep=None, workers=4, timeout=1500, heap=None):
    """Behaviours which TLC prints as JSON strings, one per line, without repetition."""
    t = time.time()
    extra = []
    if simulate:
        # one worker, so that the behaviours depend on the seed alone
        extra = ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(ctx.seed)]
    code, text, d = tlc(ctx.work, module, cfg, extra=extra, workers=workers, timeout=timeout, heap=heap)
    lines = set()
    for line in text.splitlines():
        if line.startswith('"'):
            lines.add(json.loads(line))
    lines = sorted(lines)
    total = len(lines)
    if total == 0:
        raise CheckError(f"{module}/{cfg} generated nothing:\n" + text[-2000:])
    if keep and keep < total:
        import random
        lines = sorted(random.Random(ctx.seed).sample(lines, keep))
    path = os.path.join(ctx.work, what + ".gen")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    gen, distinct = stats(text)
    with ctx.lock:
        ctx.states += distinct
        ctx.transitions += gen
        ctx.generated[what] = {"by": f"{module}/{cfg}", "behaviours": total, "replayed": len(lines), "s": round(time.time() - t, 1)}
    log(f"{module}/{cfg}: {total} behaviours generated, {len(lines)} used, {time.time() - t:.1f} s")
    shutil.rmtree(d, ignore_errors=True)
    return path


def canaries(spec):
    path = os.path.join(SPEC, "canary", spec + ".ndjson")
    if not os.path.exists(path):
        return []
    return [line.rstrip("\n") for line in open(path)]


REJECT = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)


def limit():
    # a runaway allocation fails instead of filling the machine's memory
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def literals(ctx, shapes, scale, seed, release):
    """Rust programs with fleece! literals of these shapes, compiled; None if they do not compile (a violation)."""
    name = f"macro-{seed}{'-rel' if release else ''}"
    src = os.path.join(ctx.work, name + ".rs")

    def compiled():
        cmd = ["cargo", "build", "--offline", "--quiet", "--features", "macros", "--bin", "fvm"] + (["--release"] if release else [])
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target-macros"), CARGO_TERM_COLOR="never", FV_MACROS=src)
        env.pop("RUSTFLAGS", None)
        return subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, capture_output=True, text=True, errors="replace")

    t = time.time()
    subprocess.run([ctx.bin(), "macros", shapes, str(seed), str(scale), src], check=True)
    with ctx.lock:
        r = compiled()
        if r.returncode == 0:
            exe = os.path.join(ctx.work, name + ".exe")
            shutil.copy(os.path.join(BUILD, "target-macros", "release" if release else "debug", "fvm"), exe)
            log(f"compiled {name} in {time.time() - t:.1f} s")
            return exe
        programs = open(src).read()
        with open(src, "w") as f:
            f.write("pub const PROGRAMS: &[(&str, fn() -> T)] = &[];\n")
        ok = compiled().returncode == 0
    if not ok:
        raise CheckError("fvm does not build:\n" + r.stderr[-3000:])
    p = replay_path(ctx, name)
    err = r.stderr[r.stderr.find("error"):][:3000]
    json.dump({"how": "fleece! literals do not compile", "stderr": err, "programs": programs}, open(p, "w"), indent=1)
    ctx.violation(f"fleece! literals do not compile: {err[:400]}", p)
    return None


def record(ctx, fam, scale, seed, env=None, release=False, timeout=800):
    """Runs the code under test; returns the trace file, or None after a crash (a violation)."""
    name = f"{fam}-{seed}{'-rel' if release else ''}"
    out = os.path.join(ctx.work, name + ".ndjson")
    journal = os.path.join(ctx.work, name + ".journal")
    e = dict(os.environ, FV_JOURNAL=journal, RUST_BACKTRACE="0", **(env or {}))
    exe = ctx.bin(release) if fam != "macro" else literals(ctx, env["FV_CALLS"], scale, seed, release)
    if exe is None:
        return None
    t = time.time()
    cmd = [exe, "rec", fam, str(seed), str(scale), out]
    try:
        r = subprocess.run(cmd, env=e, capture_output=True, text=True, errors="replace", timeout=timeout, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        raise CheckError(f"recording {fam} took more than {timeout} s")
    if r.returncode == 3:
        raise CheckError(f"recording {fam}: {r.stderr[-1000:]}")
    if r.returncode != 0:
        doing, state = "", "?"
        try:
            j = open(journal, "rb").read()
            n = int.from_bytes(j[:4], "little")
            state = chr(j[4])
            doing = j[8:8 + n].decode(errors="replace")
        except OSError:
            pass
        how = (f"killed by signal {signal.Signals(-r.returncode).name}" if r.returncode < 0
               else "hung" if r.returncode == 97 else f"exit {r.returncode}")
        p = replay_path(ctx, f"crash-{name}")
        json.dump({"how": how, "family": fam, "seed": seed, "scale": scale, "release": release, "state": state,
                   "doing": doing, "stderr": r.stderr[-4000:], "cmd": cmd[1:]}, open(p, "w"), indent=1)
        ctx.violation(f"the code under test {how} in family {fam}: {doing[:200]} {r.stderr[-300:]}", p)
        return None
    info = json.loads(r.stdout.strip().splitlines()[-1])
    log(f"recorded {name}: {r.stdout.strip().splitlines()[-1]} {time.time() - t:.1f} s")
    return out, info, name


def validate(ctx, spec, out, info, name, workers=4, timeout=1500, heap=None):
    """Is every recorded trace a behaviour of the trace specification?"""
    t = time.time()
    traces = [l for l in open(out)]
    n = len(traces)
    if n == 0:
        raise CheckError(f"no trace was recorded: {name}")
    can = canaries(spec)
    if not can:
        raise CheckError(f"no canaries for {spec}")
    both = os.path.join(ctx.work, name + ".checked.ndjson")
    # Traces of which TLC could not evaluate an event: the code returned something of a form for
    # which the specification has no value at all.  They are rejected and the rest is checked.
    bad = {}
    while True:
        kept = [k for k in range(1, n + 1) if k not in bad]
        with open(both, "w") as f:
            f.writelines(traces[k - 1] for k in kept)
            for c in can:
                f.write(c + "\n")
        code, text, d = tlc(ctx.work, spec, spec, env={"TRACE_FILE": both}, workers=workers, timeout=timeout, heap=heap,
                            ok_codes=(0, 12, *EVALUATION))
        if code not in EVALUATION:
            break
        i = text.find("The behavior up to this point is")
        at = re.findall(r"^/\\ (tid|pos) = (\d+)$", text[i:], re.M) if i >= 0 else []
        at = {k: int(v) for k, v in at}
        if "tid" not in at or at["tid"] > len(kept) or re.search("StackOverflow|OutOfMemory", text):
            i = max(text.find("Error:"), 0)
            raise CheckError(f"TLC failed on {spec} (exit {code}):\n" + text[i:i + 1500])
        bad[kept[at["tid"] - 1]] = (at.get("pos", 0), ["not-in-the-domain-of-the-specification"])
        shutil.rmtree(d, ignore_errors=True)
        if len(bad) == 5:
            # no verdict about the others, but these are enough
            log(f"{spec}: {name}: given up after {len(bad)} traces outside the domain of the specification")
            return report(ctx, spec, name, traces, bad)
    rejects = {}
    for m in REJECT.finditer(text):
        rejects[int(m.group(1))] = (int(m.group(2)), sorted(x.strip().strip('"') for x in m.group(3).split(",")))
    ended = {int(x) for x in re.findall(r'<<"DONE", (\d+)>>', text)}
    gen, distinct = stats(text)
    if distinct == 0:
        raise CheckError(f"TLC did not complete {spec} on {name}:\n" + text[-2000:])
    n = len(kept)
    # Every canary must be rejected, and for its reason.
    for i, c in enumerate(can):
        want = json.loads(c)["why"]
        got = rejects.get(n + 1 + i)
        if spec in INFER:
            if n + 1 + i in ended:
                raise CheckError(f"{spec}: canary {i} was accepted")
        elif got is None or want not in got[1]:
            raise CheckError(f"{spec}: canary {i} ({want}) was not rejected: {got}")
    found = {kept[k - 1]: v for k, v in rejects.items() if k <= n}
    if spec in INFER:
        for k in range(1, n + 1):
            if k not in ended:
                found[kept[k - 1]] = (0, ["no-order-of-the-operations-explains-this"])
    else:
        # Completeness: each accepted trace was checked to its end.
        expect = 0
        for i, l in enumerate([traces[k - 1] for k in kept] + can):
            k = i + 1
            if k in rejects:
                expect += rejects[k][0] + 1
            else:
                expect += len(json.loads(l)["ev"]) + 1
        if expect != distinct:
            raise CheckError(f"{spec} on {name}: {distinct} states instead of {expect}:\n" + text[-1500:])
    bad.update(found)
    with ctx.lock:
        ctx.states += distinct
        ctx.transitions += gen
        ctx.traces += len(traces)
        ctx.events += info.get("events", 0)
        ctx.canaries += len(can)
        for k, v in info.items():
            if k not in ("traces", "events"):
                ctx.counts[k] = ctx.counts.get(k, 0) + v
        ctx.families.append({"family": name, "spec": spec, "traces": len(traces), "events": info.get("events", 0), "rejected": len(bad)})
        if len(ctx.samples) < 4:
            ctx.samples.append({"family": name, "trace": traces[len(traces) // 2][:700]})
    log(f"{spec}: {name}: {len(traces)} traces, {distinct} states, {len(bad)} rejected, {time.time() - t:.1f} s")
    report(ctx, spec, name, traces, bad)
    shutil.rmtree(d, ignore_errors=True)
    os.remove(both)
    os.remove(out)


def report(ctx, spec, name, traces, bad):
    """Makes violations of the rejected traces: trace number -> (event, problems)"""
    for k, (pos, why) in sorted(bad.items())[:5]:
        tr = json.loads(traces[k - 1])
        p = replay_path(ctx, f"{name}-{k}")
        ev = tr["ev"][pos - 1] if 0 < pos <= len(tr["ev"]) else None
        with open(p, "w") as f:
            json.dump({"spec": spec, "family": name, "trace": tr, "rejected_event": pos, "problems": why, "event": ev}, f)
        ctx.violation(f"{name} trace {tr.get('n')} event {pos}: {why}: {json.dumps(ev)[:300]}", p)
    if len(bad) > 5:
        log(f"{len(bad) - 5} further rejected traces are not listed")


# TLC's exit codes for an expression which it cannot evaluate
EVALUATION = (75, 76)

# trace specifications in which TLC infers unobserved steps
INFER = {"TraceConc"}


def conform(ctx, fam, spec, scale=1, seed=None, env=None, release=False, workers=4):
    r = record(ctx, fam, scale, ctx.seed if seed is None else seed, env=env, release=release)
    if r:
        validate(ctx, spec, *r, workers=workers)


# ---------------------------------------------------------------- running one check

def run_tasks(tasks, width):
    errors = []
    with cf.ThreadPoolExecutor(width) as ex:
        futs = [ex.submit(t) for t in tasks]
        for f in cf.as_completed(futs):
            try:
                f.result()
            except CheckError as e:
                errors.append(e)
    return errors


def check(pid):
    import plan
    work = os.path.join(BUILD, f"work-{pid}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ctx = Ctx(pid, work)
    code = 2
    try:
        ctx.bin()
        errors = plan.run(ctx)
        if ctx.violations:
            code = 1
        elif errors:
            code = 2
        else:
            code = 0
        for e in errors:
            print("CHECK ERROR:", e, flush=True)
        for k in ctx.known:
            print(f"KNOWN-FINDING: property={pid} {k}", flush=True)
        for what, p in ctx.violations:
            print("  " + what, flush=True)
        for what, p in ctx.violations:
            print(f"VIOLATION property={pid} replay={p}", flush=True)
        evidence(ctx)
    except CheckError as e:
        print("CHECK ERROR:", e, flush=True)
        code = 1 if ctx.violations else 2
        for what, p in ctx.violations:
            print("  " + what)
            print(f"VIOLATION property={pid} replay={p}", flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    log(f"{pid} {'held' if code == 0 else 'VIOLATED' if code == 1 else 'undecided'}")
    return code


def evidence(ctx):
    import plan
    cov = {
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces,
        "events_validated": ctx.events,
        "samples": ctx.samples or [{"note": "no trace was validated on this run"}],
        "specifications_checked": ctx.mc,
        "wrong_designs_refuted": ctx.refuted,
        "behaviours_generated_from_the_specification": ctx.generated,
        "families": sorted(ctx.families, key=lambda f: f["family"]),
        "counts": ctx.counts,
        "canary_traces_rejected": ctx.canaries,
        "rule": "states and transitions: all that TLC explored on this run, model checking and trace validation together; "
                "a trace is one recorded execution of the code built from /repo, every event of which is a step of the specification",
    }
    cov.update(ctx.extra)
    e = {
        "property": ctx.pid,
        "tier": "thorough" if THOROUGH else "quick",
        "seed": ctx.seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": plan.ASSUMPTIONS.get(ctx.pid, []) + plan.ASSUMPTIONS["all"],
        "wall_s": round(time.time() - T0, 1),
        "violations": len(ctx.violations),
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ctx.pid + ".json"), "w") as f:
        json.dump(e, f, indent=1)


def main():
    if sys.argv[1:2] == ["setup"]:
        build()
        build(release=True)
        return 0
    if sys.argv[1:2] == ["check"] and len(sys.argv) == 3:
        return check(sys.argv[2])
    if sys.argv[1:2] == ["replay"] and len(sys.argv) == 3:
        return replay(sys.argv[2])
    print(__doc__)
    return 2


def replay(path):
    """Shows a saved violation: the trace is given to TLC again."""
    j = json.load(open(path))
    if "trace" not in j:
        print(json.dumps(j, indent=1))
        return 1
    work = os.path.join(BUILD, f"work-replay-{os.getpid()}")
    os.makedirs(work)
    try:
        f = os.path.join(work, "t.ndjson")
        with open(f, "w") as o:
            o.write(json.dumps(j["trace"]) + "\n")
        _, text, _ = tlc(work, j["spec"], j["spec"], env={"TRACE_FILE": f}, ok_codes=(0, 12))
        m = REJECT.findall(text)
        print("rejected:" if m else "accepted", m)
        return 1 if m else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
