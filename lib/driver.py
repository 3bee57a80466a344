import os, sys, json, time, hashlib, subprocess, resource, signal, threading, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
NCPU = os.cpu_count() or 4
# The tree the harness is built against.
REPO = re.search(r'path = "([^"]+)"', open(os.path.join(HARNESS, "Cargo.toml")).read()).group(1)

# ------------------------------------------------------------------ builds
# name: (toolchain, cargo target or None, release, features, rustflags)
I686 = "i686-unknown-linux-gnu"
X64 = "x86_64-unknown-linux-gnu"
CONFIGS = {
    "x64d": ("stable", None, False, "unwind", ""),
    "x64r": ("stable", None, True, "unwind", ""),
    "x64dn": ("stable", None, False, "", ""),
    "x64rn": ("stable", None, True, "", ""),
    "i686d": ("1.99.1", I686, False, "unwind", ""),
    "i686r": ("1.99.1", I686, True, "unwind", ""),
    "i686dn": ("1.99.1", I686, False, "", ""),
    "i686rn": ("1.99.1", I686, True, "", ""),
    # AddressSanitizer: heap, globals. Its stack instrumentation assumes that a
    # thread runs on one stack and must stay off.
    "asan": ("nightly", X64, False, "unwind", "-Zsanitizer=address -Cllvm-args=-asan-stack=0"),
    "asanr": ("nightly", X64, True, "unwind", "-Zsanitizer=address -Cllvm-args=-asan-stack=0"),
    "asmud": ("nightly", None, False, "asm-unwind", ""),
    "tsan": ("nightly", X64, False, "unwind", "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer --cfg vh_tsan"),
    "tsanr": ("nightly", X64, True, "unwind", "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer --cfg vh_tsan"),
    "x64fp": ("stable", None, True, "unwind", "-Cforce-frame-pointers=yes"),
    "x64dfp": ("stable", None, False, "unwind", "-Cforce-frame-pointers=yes"),
    "i686fp": ("1.99.1", I686, True, "unwind", "-Cforce-frame-pointers=yes"),
    "i686dfp": ("1.99.1", I686, False, "unwind", "-Cforce-frame-pointers=yes"),
    # Optimised harness code generation variants
    "x64o1": ("stable", None, True, "unwind", "-Copt-level=1 -Ctarget-cpu=x86-64-v3"),
    "x64os": ("stable", None, True, "unwind", "-Copt-level=s -Clto=fat -Cembed-bitcode=yes"),
}
_toolchain_cache = {}
def toolchain(name):
    """'nightly' etc. as installed (nightly may carry a date)."""
    if name not in _toolchain_cache:
        out = subprocess.run(["rustup", "toolchain", "list"], capture_output=True, text=True).stdout.split("\n")
        names = [l.split()[0] for l in out if l.strip()]
        hit = [n for n in names if n == name or n.startswith(name + "-")]
        _toolchain_cache[name] = hit[0] if hit else name
    return _toolchain_cache[name]

def base_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC", "RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUSTUP_TOOLCHAIN"))
           or k in ("CARGO_HOME",)}
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUST_BACKTRACE"] = "0"
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_segv=0:handle_sigbus=0:handle_sigill=0:use_sigaltstack=0:allocator_may_return_null=1:quarantine_size_mb=16"
    return env

class BuildError(Exception):
    pass

def out_dir(cfg):
    tc, tgt, rel, feat, rf = CONFIGS[cfg]
    d = os.path.join(TARGET, cfg)
    if tgt:
        d = os.path.join(d, tgt)
    return os.path.join(d, "release" if rel else "debug")

def repo_hash():
    """Contents of everything the library is built from."""
    h = hashlib.sha256()
    fs = []
    for top in ("src", "build.rs", "Cargo.toml"):
        p = os.path.join(REPO, top)
        if os.path.isdir(p):
            for d, _, names in os.walk(p):
                fs += [os.path.join(d, n) for n in names]
        else:
            fs.append(p)
    for f in sorted(fs):
        try:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
        except OSError:
            pass
    return h.hexdigest()

def forget_stale(cfg):
    """Cargo compares time stamps only; a tree that was laid out with old ones
    would not be rebuilt."""
    d = os.path.join(TARGET, cfg)
    stamp = os.path.join(d, "repo-hash")
    now = repo_hash()
    try:
        if open(stamp).read() == now:
            return
    except OSError:
        pass
    for base, dirs, _ in os.walk(d):
        if os.path.basename(base) == ".fingerprint":
            for x in dirs:
                if x.startswith("corosensei-"):
                    shutil.rmtree(os.path.join(base, x), ignore_errors=True)
            dirs[:] = []
    os.makedirs(d, exist_ok=True)
    open(stamp, "w").write(now)

def build(cfg, bins):
    tc, tgt, rel, feat, rf = CONFIGS[cfg]
    forget_stale(cfg)
    env = base_env()
    env["RUSTUP_TOOLCHAIN"] = toolchain(tc)
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, cfg)
    env["RUSTFLAGS"] = (rf + " -Awarnings").strip()
    cmd = ["cargo", "build", "--offline", "--locked", "-q"]
    for b in sorted(bins):
        cmd += ["--bin", b]
    if tgt:
        cmd += ["--target", tgt]
    if rel:
        cmd += ["--release"]
    if feat:
        cmd += ["--features", feat]
    last = None
    for attempt in range(2):
        try:
            p = subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True, timeout=700)
        except subprocess.TimeoutExpired:
            last = "timed out"
            continue
        if p.returncode == 0:
            return
        last = p.stderr[-3000:]
    raise BuildError(f"building {cfg}: {last}")

# ------------------------------------------------------------------ running
class Run:
    __slots__ = ("cmd", "rc", "sig", "out", "err", "progress", "timeout", "cpu", "wall", "blocked", "cancelled")

def session_state(sid):
    """CPU ticks used by the session's processes, and whether all of their
    threads sleep."""
    ticks, asleep, n = 0, True, 0
    for pid in os.listdir("/proc"):
        if not pid.isdigit():
            continue
        try:
            f = open(f"/proc/{pid}/stat").read().rpartition(")")[2].split()
            if int(f[3]) != sid or f[0] == "Z":
                continue
            ticks += int(f[11]) + int(f[12])
            for t in os.listdir(f"/proc/{pid}/task"):
                st = open(f"/proc/{pid}/task/{t}/stat").read().rpartition(")")[2].split()[0]
                n += 1
                asleep = asleep and st == "S"
        except (OSError, IndexError, ValueError):
            asleep = False
    return ticks, asleep and n > 0

# Nothing in the engines waits for longer than milliseconds.
BLOCKED_S = 30

def run_one(cmd, env, cpu_s, wall_s, progress=None, mem=None, cwd=None, stop=None):
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
        if mem:
            resource.setrlimit(resource.RLIMIT_DATA, (mem, mem))
    r = Run()
    r.cmd = cmd
    r.timeout = r.cpu = r.blocked = r.cancelled = False
    t0 = time.time()
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, preexec_fn=pre, cwd=cwd)
    quiet, last, n = None, -1, 0
    while True:
        try:
            out, err = p.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            pass
        now, n = time.time(), n + 1
        if n % 5 == 0:
            ticks, asleep = session_state(p.pid)
            if not asleep or ticks != last or quiet is None:
                quiet, last = now, ticks
            r.blocked = now - quiet > BLOCKED_S
        r.cancelled = stop is not None and stop()
        r.timeout = now - t0 > wall_s
        if r.blocked or r.timeout or r.cancelled:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
            break
    r.wall = time.time() - t0
    r.out = out.decode("utf-8", "replace")
    r.err = err.decode("utf-8", "replace")
    r.rc = p.returncode
    r.sig = -p.returncode if p.returncode < 0 else 0
    if r.sig == signal.SIGXCPU or (r.sig == signal.SIGKILL and not (r.timeout or r.blocked or r.cancelled) and r.wall > cpu_s * 0.8):
        r.cpu = True
    r.progress = ""
    if progress:
        try:
            r.progress = open(progress, "rb").read().split(b"\0")[0].decode("utf-8", "replace")
        except OSError:
            pass
    return r

class Job:
    """One engine run, possibly one shard of many."""
    def __init__(self, cfg, bin, args=(), start=0, iters=1, cpu=150, wall=420, seed=1, env=None, wrap=None, judge=None, share=None, mem=None, weight=1):
        self.cfg, self.bin, self.args = cfg, bin, list(args)
        self.start, self.iters, self.cpu, self.wall, self.seed = start, iters, cpu, wall, seed
        self.env = env or {}
        self.wrap = wrap            # command prefix
        self.judge = judge          # replaces the default verdict
        self.mem = mem
        self.weight = weight
    def cmd(self, only=None):
        exe = os.path.join(out_dir(self.cfg), self.bin)
        c = (self.wrap or []) + [exe, "--seed", str(self.seed)] + self.args
        if only is None:
            c += ["--start", str(self.start), "--iters", str(self.iters)]
        else:
            c += ["--only", str(only)]
        return c

class Verdict:
    def __init__(self):
        self.violations = []     # (msg, replay dict)
        self.unsure = []
        self.skipped = []
        self.results = []        # (job, result json)
        self.lock = threading.Lock()

SIGNAMES = {s.value: s.name for s in signal.Signals}

def judge_default(job, run, v, ctx):
    """VIOL lines, crashes -> violation. RESULT -> held. Rest unsure."""
    viols = re.findall(r"^VIOL (.*)$", run.out, re.M)
    res = re.findall(r"^RESULT (.*)$", run.out, re.M)
    label = f"{job.cfg}/{job.bin} {' '.join(job.args)}"
    def add(msg):
        with v.lock:
            v.violations.append((f"{label}: {msg}", replay_info(job, run, msg)))
    if viols:
        for x in viols:
            try:
                d = json.loads(x)
            except ValueError:
                d = {"msg": x}
            add(f"case {d.get('case')}: {d.get('msg')}")
        return
    if run.rc == 0 and res:
        with v.lock:
            v.results.append((job, json.loads(res[-1])))
        return
    inc = re.findall(r"^INCONCLUSIVE (.*)$", run.out, re.M)
    if inc or run.rc in (20, 64, 126, 127):
        with v.lock:
            v.unsure.append(f"{label}: {inc[0] if inc else 'exit %d' % run.rc} {run.err[-300:]}")
        return
    case = run.progress.split(" ")[0]
    if job.cfg.startswith("tsan") and not (run.rc == 66 and "WARNING: ThreadSanitizer" in run.err):
        # Only reports count: the tool itself may fail (address space layout,
        # fibers); the other builds judge crashes.
        with v.lock:
            v.skipped.append(f"{label}: no verdict from ThreadSanitizer (exit {run.rc}): {run.err[-200:]}")
        return
    if run.timeout or run.cpu or run.blocked or run.sig == signal.SIGKILL:
        # A hang is only believed when the single case in progress does not end either.
        if case.isdigit() and not (run.sig == signal.SIGKILL and not (run.timeout or run.cpu or run.blocked)):
            r2 = ctx.execute(job, only=int(case), cpu=40, wall=240)
            if r2.cancelled:
                return
            if r2.cpu:
                add(f"case {run.progress}: does not terminate (40 s of CPU time; cases take milliseconds)")
                return
            if r2.blocked:
                add(f"case {run.progress}: does not terminate: every thread sleeps for {BLOCKED_S} s (deadlock)")
                return
            if r2.rc != 0 and not r2.timeout:
                judge_default(job, r2, v, ctx)
                return
        with v.lock:
            v.unsure.append(f"{label}: ended by the watchdog at {run.progress!r}")
        return
    if run.sig:
        add(f"case {run.progress}: the process was killed by {SIGNAMES.get(run.sig, run.sig)}")
    elif run.rc == 99:
        add(f"case {run.progress}: sanitizer report: {sanitizer_summary(run.err)}")
    elif run.rc == 66:
        add(f"case {run.progress}: ThreadSanitizer report: {sanitizer_summary(run.err)}")
    elif run.rc == 101 or "panicked at" in run.err:
        add(f"case {run.progress}: unexpected panic: {first_panic(run.err)}")
    elif run.rc == 0:
        add(f"case {run.progress}: the process ended without completing its workload") 
    else:
        with v.lock:
            v.unsure.append(f"{label}: exit {run.rc} {run.err[-300:]}")

VALGRIND = ["valgrind", "-d", "-d", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect",
            "--show-leak-kinds=definite,indirect", "--num-callers=20", "--vgdb=no"]

def judge_valgrind(job, run, v, ctx):
    """C26. Compares Valgrind's own log with the program's announcements."""
    label = f"{job.cfg}/{job.bin} {' '.join(job.args)}"
    def add(msg):
        with v.lock:
            v.violations.append((f"{label}: {msg}", replay_info(job, run, msg)))
    err = run.err
    m = re.search(r"ERROR SUMMARY: (\d+) errors", err)
    if run.timeout or run.cpu or not m or "== Memcheck" not in err:
        with v.lock:
            v.unsure.append(f"{label}: Valgrind gave no summary (exit {run.rc}): {err[-300:]}")
        return
    where = run.progress
    res = re.findall(r"^RESULT (.*)$", run.out, re.M)
    if re.search(r"^VIOL ", run.out, re.M) or "terminating with default action of signal" in err or run.rc == 101:
        add(f"case {where}: the workload failed under Valgrind: {run.out[-300:]} " + " / ".join(re.findall(r"^==\d+== (Process term.*|.*Bad perm.*|.*Access not.*)$", err, re.M)))
        return
    # ---- registrations
    regs, live, events = {}, {}, 0
    for l in err.split("\n"):
        x = re.match(r"--\d+:2:\s+stacks\s+register \[start-end\] \[0x([0-9A-Fa-f]+)-0x([0-9A-Fa-f]+)\] as stack (\d+)", l)
        if x:
            a, b, n = int(x[1], 16), int(x[2], 16), int(x[3])
            if n:
                regs[n] = (a, b)
            continue
        x = re.match(r"--\d+:2:\s+stacks\s+deregister stack (\d+)", l)
        if x:
            n = int(x[1])
            if n not in regs:
                add(f"stack {n} is deregistered though not registered")
                return
            a, b = regs.pop(n)
            owner = [k for k, st in live.items() if st["id"] == n]
            if owner:
                if not live[owner[0]]["dropping"]:
                    add(f"stack {n} [{a:x}-{b:x}] is deregistered while it exists")
                    return
                live[owner[0]]["id"] = None
            continue
        x = re.search(r"VH (new|dropping|gone|unmap) ([0-9a-f]+) ([0-9a-f]+)$", l)
        if not x:
            continue
        lim, base = int(x[2], 16), int(x[3], 16)
        events += 1
        if x[1] == "new":
            hit = [n for n, (a, b) in regs.items() if lim <= a <= lim + 4096 and b in (base, base - 1)]
            over = [n for n, (a, b) in regs.items() if n not in hit and a < base and b > lim]
            if len(hit) != 1 or over:
                add(f"the new stack [{lim:x}-{base:x}) is registered {len(hit)} times; other registrations of its memory: {[tuple(map(hex, regs[n])) for n in over]}")
                return
            live[(lim, base)] = {"id": hit[0], "dropping": False}
        elif x[1] == "unmap":
            st = live.get((lim, base))
            if st and st["dropping"] and st["id"] is not None:
                add(f"the memory of the stack [{lim:x}-{base:x}) is given back while stack {st['id']} is still registered for it")
                return
        elif x[1] == "dropping":
            live[(lim, base)]["dropping"] = True
        else:
            st = live.pop((lim, base))
            if st["id"] is not None:
                add(f"the stack [{lim:x}-{base:x}) is gone but stays registered")
                return
    if live:
        with v.lock:
            v.unsure.append(f"{label}: stacks left: {len(live)}")
        return
    if regs:
        add(f"{len(regs)} registrations are left at exit: {[tuple(map(hex, r)) for r in list(regs.values())[:3]]}")
        return
    # ---- reports
    n = int(m[1])
    at = re.findall(r"^==\d+==    at 0x[0-9A-F]+: (\S+)", err, re.M)
    first = re.search(r"^==\d+== ((?:Invalid|Conditional|Use of|Syscall|Jump|Mismatched|Source|Argument|Warning|[\d,]+ (?:\(|bytes in))[^\n]*)\n((?:==\d+==    [^\n]*\n){0,6})", err, re.M)
    text = re.sub(r"==\d+==\s*", "", first[0]).replace("\n", " | ")[:500] if first else ""
    warn = re.search(r"^==\d+== Warning: [^\n]*", err, re.M)
    prof = job.args[job.args.index("--profile") + 1]
    if prof == "bug":
        kind = job.start % 5
        name = ["vh_bug_uninit_heap", "vh_bug_overflow_read", "vh_bug_overflow_write", "vh_bug_use_after_free", "vh_bug_uninit_stack"][kind]
        if n == 0 or name not in at:
            add(f"bug case {job.start}: the genuine error in {name} is not reported ({n} errors, at {at[:4]})")
            return
    else:
        tag = f"reuse case {job.start}: " if prof == "reuse" else ""
        if n:
            add(f"{tag}memcheck reports {n} errors in a program that has none, first: {text}")
            return
        if warn:
            add(f"{tag}Valgrind warns: {warn[0]}")
            return
    if not res:
        with v.lock:
            v.unsure.append(f"{label}: no result (exit {run.rc})")
        return
    r = json.loads(res[-1])
    r.setdefault("counters", {})["stack_registrations_checked"] = events // 3
    with v.lock:
        v.results.append((job, r))

GDB_SCRIPT = os.path.join(VERIF, "lib", "backtrace.gdb")
GDB = ["gdb", "-nx", "-batch", "-x", GDB_SCRIPT, "--args"]

def judge_gdb(job, run, v, ctx):
    """C20. Compares gdb's backtraces with the program's announcements."""
    label = f"{job.cfg}/{job.bin} {' '.join(job.args)} under gdb"
    def add(msg):
        with v.lock:
            v.violations.append((f"{label}: {msg}", replay_info(job, run, msg)))
    viol = re.search(r"VIOL (.*)$", run.out, re.M)
    if viol:
        add(f"case {run.progress}: {viol[1]}")
        return
    want = {int(m[1]): (m[2], m[3].split()) for m in re.finditer(r"^VH expect (\d+) (\w+)([ \d]*)$", run.err, re.M)}
    hits = re.findall(r"^VH hit (\d+)\n(.*?)^VH end$", run.out, re.M | re.S)
    if run.timeout or run.cpu or (not hits and not re.search(r"exited normally|received signal", run.out)):
        with v.lock:
            v.skipped.append(f"{label}: gdb gave no verdict (exit {run.rc}): {run.err[-300:]}")
        return
    compared = frames = 0
    for n, text in hits:
        kind, nodes = want.get(int(n), (None, None))
        if nodes is None:
            continue
        fr = re.findall(r"^#\d+ +(.*)$", text, re.M)
        got = [m[1] for f in fr for m in [re.match(r"(?:0x[0-9a-f]+ in )?vh_n(\d+)\b", f)] if m]
        stopped = re.search(r"^Backtrace stopped:.*$", text, re.M)
        end = fr[-1] if fr else ""
        if got != nodes or stopped or not re.match(r"(0x[0-9a-f]+ in )?(main|_start|__libc_start_\w+)\b", end):
            add(f"case {run.progress}: stop {n} ({kind}): the chain of calls is {' '.join(nodes)} and main, gdb shows {' '.join(got)} and ends after {len(fr)} frames in {end[:80]!r} {stopped[0] if stopped else ''}")
            return
        compared += 1
        frames += len(fr)
    if "received signal" in run.out:
        add(f"case {run.progress}: {re.search(r'Program received signal [^.]*', run.out)}")
        return
    res = re.findall(r"RESULT (\{.*\})$", run.out, re.M)
    if not res or not compared:
        with v.lock:
            v.skipped.append(f"{label}: no result under gdb (exit {run.rc}): {run.err[-300:]}")
        return
    r = json.loads(res[-1])
    r.setdefault("counters", {}).update({"debugger_backtraces_compared": compared, "debugger_frames": frames})
    with v.lock:
        v.results.append((job, r))

def sanitizer_summary(err):
    m = re.search(r"^SUMMARY: .*$", err, re.M)
    return m.group(0) if m else err[-200:]
def first_panic(err):
    m = re.search(r"panicked at [^\n]*\n?[^\n]*", err)
    return m.group(0).replace("\n", " ") if m else err[-200:]

def replay_info(job, run, msg):
    case = run.progress.split(" ")[0]
    return {
        "what": msg,
        "config": job.cfg,
        "command": run.cmd,
        "single_case": job.cmd(int(case)) if case.isdigit() else None,
        "env": {"RUST_BACKTRACE": "0", **job.env},
        "progress": run.progress,
        "exit": run.rc,
        "stdout_tail": run.out[-2000:],
        "stderr_tail": run.err[-4000:],
    }

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.n = 0
        self.lock = threading.Lock()
        self.stop = None
    def execute(self, job, only=None, cpu=None, wall=None):
        with self.lock:
            self.n += 1
            k = self.n
        prog = os.path.join(self.tmp, f"p{k}")
        env = base_env()
        env.update(job.env)
        r = run_one(job.cmd(only) + ["--progress", prog], env, cpu or job.cpu, wall or job.wall, progress=prog, mem=job.mem, cwd=self.tmp, stop=self.stop)
        try:
            os.unlink(prog)
        except OSError:
            pass
        return r

def shards(cfg, bin, args, total, per, seed, **kw):
    out = []
    s = 0
    while s < total:
        n = min(per, total - s)
        out.append(Job(cfg, bin, args, start=s, iters=n, seed=seed, **kw))
        s += n
    return out

def load_findings():
    """known_findings.txt: lines 'fixed: ...' suppress nothing; lines
    'known: property=<id> match=<regex> :: <what fails>' describe findings."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out

def main(argv):
    import props
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--seed":
            seed = int(argv[i + 1])
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if prop == "setup":
        return setup()
    spec = props.PROPS[prop]
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    try:
        return decide(prop, spec, ctx, t0)
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)

def setup():
    """Nothing is required beforehand: this only warms nothing and checks tools."""
    for t in ("cargo", "rustup"):
        if not shutil.which(t):
            print(f"missing {t}")
            return 2
    os.makedirs(EVID, exist_ok=True)
    for name in ("stable", "1.99.1", "nightly"):
        print(name, "->", toolchain(name))
    return 0

def decide(prop, spec, ctx, t0):
    os.makedirs(EVID, exist_ok=True)
    jobs = spec.jobs(ctx)
    need = {}
    for j in jobs:
        need.setdefault(j.cfg, set()).add(j.bin)
    v = Verdict()
    with ThreadPoolExecutor(max(1, NCPU // 2)) as ex:
        futs = {c: ex.submit(build, c, b) for c, b in need.items()}
        for c, f in futs.items():
            try:
                f.result()
            except BuildError as e:
                v.unsure.append(str(e))
    tb = time.time() - t0
    ok = [j for j in jobs if all(os.path.exists(os.path.join(out_dir(j.cfg), j.bin)) for _ in [0]) and not any(u.startswith(f"building {j.cfg}:") for u in v.unsure)]
    sem = Sem(NCPU)
    known = load_findings()
    def find(msg):
        return next((k for k in known if k[0] == prop and re.search(k[1], msg)), None)
    def decided():
        # The first unlisted violation decides; do not spend time on the rest.
        return any(not find(m) for m, _ in v.violations)
    ctx.stop = decided
    def go(j):
        if decided():
            return
        sem.acquire(j.weight)
        try:
            if decided():
                return
            r = ctx.execute(j)
        finally:
            sem.release(j.weight)
        if r.cancelled:
            return
        (j.judge or judge_default)(j, r, v, ctx)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(go, ok))
    # ---- verdict
    real, reported = [], []
    for msg, rep in v.violations:
        hit = find(msg)
        if hit:
            reported.append(hit)
        else:
            real.append((msg, rep))
    for k in sorted(set(reported)):
        print(f"KNOWN-FINDING: property={prop} {k[2]}")
    cov = coverage(spec, v, jobs)
    cov["build_s"] = round(tb, 1)
    if v.unsure:
        cov["inconclusive"] = v.unsure[:10]
    if v.skipped:
        cov["skipped"] = v.skipped[:10]
    need_min = spec.minimum
    if not real and not v.unsure:
        for key, n in need_min.items():
            got = cov["distinct_nontrivial"] if key == "distinct" else cov["observed"].get(key, 0)
            if got < n:
                v.unsure.append(f"the monitors observed only {got} {key} (at least {n} expected)")
    ev = {
        "property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration",
        "coverage": cov, "assumptions": spec.assumptions, "wall_s": round(time.time() - t0, 1),
        "violations": len(real),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if real:
        for n, (msg, rep) in enumerate(real[:5]):
            path = os.path.join(EVID, f"{prop}.replay{n}.json")
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            print(f"  {msg}"[:1500])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if v.unsure:
        for u in v.unsure[:10]:
            print(f"NO VERDICT: {u}"[:3000])
        return 2
    print(f"{prop}: held on {cov['evaluations']} executions ({cov['distinct_nontrivial']} distinct), {ev['wall_s']} s")
    return 0

class Sem:
    """Weighted semaphore."""
    def __init__(self, n):
        self.n, self.cap, self.c = n, n, threading.Condition()
    def acquire(self, k):
        k = min(k, self.cap)
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k
    def release(self, k):
        with self.c:
            self.n += min(k, self.cap)
            self.c.notify_all()

def coverage(spec, v, jobs):
    evals = distinct = 0
    counters, samples, per = {}, [], {}
    for job, r in v.results:
        evals += r.get("evaluations", 0)
        distinct += r.get("distinct", 0)
        for k, n in r.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + n
        key = f"{job.cfg}/{job.bin}" + (" " + " ".join(job.args) if job.args else "")
        p = per.setdefault(key, [0, 0])
        p[0] += r.get("evaluations", 0)
        p[1] += r.get("distinct", 0)
        if r.get("samples") and len(samples) < 12:
            samples.append({"engine": key, "cases": r["samples"][:2]})
    return {
        "evaluations": evals, "distinct_nontrivial": distinct, "rule": spec.rule,
        "samples": samples or ["none"], "observed": counters,
        "engines": {k: {"evaluations": a, "distinct": b} for k, (a, b) in per.items()},
    }
