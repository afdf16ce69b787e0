#!/usr/bin/env python3
"""check.py ID            run the check of one property (VERIF_TIER, VERIF_SEED)
check.py setup         build everything the quick checks need
check.py replay FILE   run a replay file again

Builds the harness against /repo's working tree, runs its monitors on generated
workloads in several processes, confirms and reduces what they report, and
writes evidence/<ID>.json.
exit 0 held, 1 violated (with a VIOLATION line), 2 inconclusive or broken."""
import array, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = min(8, os.cpu_count() or 8)
FIXED_HEADER = "known-findings"


class Inconclusive(Exception):
    pass


# ---------------------------------------------------------------- builds
# name: (cargo arguments, environment, path of the binaries below target/NAME)
BUILDS = {
    "release": (["build", "--release"], {}, "release"),
    "f32": (["build", "--release", "--features", "f32"], {}, "release"),
    "checked": (["build", "--profile", "checked"], {}, "checked"),
    "checkedf32": (["build", "--profile", "checked", "--features", "f32"], {}, "checked"),
    "stack": (["build", "--profile", "stack"], {}, "stack"),
    "ub": (["+nightly", "build", "--release"], {"RUSTFLAGS": "-Zub-checks=yes"}, "release"),
    "asan": (
        ["+nightly", "build", "--release", "--target", "x86_64-unknown-linux-gnu"],
        {"RUSTFLAGS": "-Zsanitizer=address"},
        "x86_64-unknown-linux-gnu/release",
    ),
    # with the standard library instrumented, too: no false reports
    "tsan": (
        ["+nightly", "build", "--release", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"],
        {"RUSTFLAGS": "-Zsanitizer=thread"},
        "x86_64-unknown-linux-gnu/release",
    ),
    "msan": (
        ["+nightly", "build", "--release", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"],
        {"RUSTFLAGS": "-Zsanitizer=memory"},
        "x86_64-unknown-linux-gnu/release",
    ),
}
built = {}


def tree_hash():
    h = hashlib.sha256()
    for top in (REPO, HARNESS):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def cargo_env(extra):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(extra)
    return e


def build(name, bin="worker"):
    """build one binary (so that code that only the other needs is no obstacle)"""
    if (name, bin) in built:
        return built[name, bin]
    args, env, sub = BUILDS[name]
    args = args + ["--bin", bin]
    tgt = os.path.join(HARNESS, "target", name)
    stamp = os.path.join(tgt, f"tree-hash-{bin}")
    cur = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != cur:
        # cargo goes by modification times, which a restored tree may have old
        for d in glob.glob(tgt + "/**/.fingerprint/*", recursive=True):
            if re.match(r"(poly2tri|p2t)", os.path.basename(d)):
                shutil.rmtree(d, ignore_errors=True)
    if os.path.exists(stamp):
        os.remove(stamp)
    t0 = time.time()
    p = subprocess.run(
        ["cargo"] + args + ["--offline", "--target-dir", tgt],
        cwd=HARNESS, env=cargo_env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if p.returncode != 0:
        errs = [l for l in p.stdout.splitlines() if l.startswith("error")]
        raise Inconclusive(f"build {name} failed: {errs[:3]} {p.stdout[-1500:]}")
    with open(stamp, "w") as f:
        f.write(cur)
    built[name, bin] = os.path.join(tgt, sub)
    print(f"built {bin} ({name}) in {time.time() - t0:.1f} s", flush=True)
    return built[name, bin]


# ---------------------------------------------------------------- runs
class Run:
    """one mode in one build, on several workers"""

    def __init__(self, mode, build="release", bin="worker", quick=12, thorough=240, cpu=30, mem=3000, stack=8192,
                 env=None, tolerate=False, end=10**9, tend=10**9, note="", offset=0, procs=0):
        self.mode, self.build, self.bin = mode, build, bin
        self.secs = thorough if THOROUGH else quick
        self.cpu, self.mem, self.stack = cpu, mem, stack
        self.env = env or {}
        self.tolerate = tolerate      # crashes and hangs are allowed, UB is not
        self.end = tend if THOROUGH else end
        self.note = note
        self.procs = procs or CORES
        self.offset = offset          # shifts the seed, so that several runs of a mode differ

    def seed(self):
        return (SEED * 1000003 + self.offset * 7919 + int(hashlib.sha256(self.mode.encode()).hexdigest()[:6], 16)) & (2**63 - 1)

    def environ(self, scratch):
        e = cargo_env(self.env)
        e.update(P2T_CPU_MS=str(int(self.cpu * 1000)), P2T_MEM_MB=str(self.mem), P2T_STACK_KB=str(self.stack),
                 P2T_SCRATCH=scratch, VERIF_TIER=TIER, RUST_BACKTRACE="0")
        return e

    def exe(self):
        return os.path.join(build(self.build, self.bin), self.bin)


UB = re.compile(r"unsafe precondition|UB \S+:|AddressSanitizer(?!: stack-overflow)(?!:DEADLYSIGNAL)|Undefined Behavior|MemorySanitizer: use-of")


def classify(rc, err):
    """what ended a worker; (kind, text)"""
    if "ThreadSanitizer: data race" in err:
        at = err.index("ThreadSanitizer: data race")
        return "race", re.sub(r"\s+", " ", err[at : at + 400])
    ub = None
    for line in err.splitlines():
        if "AddressSanitizer" in line and ("stack-overflow" in line or "DEADLYSIGNAL" in line):
            continue
        if UB.search(line):
            ub = line.strip()
            break
    if ub:
        return "ub", ub[:300]
    if "has overflowed its stack" in err or "stack-overflow" in err:
        return "stack", "stack overflow"
    if rc == -signal.SIGVTALRM:
        return "hang", "no end within the CPU time limit"
    if "memory allocation of" in err or "out of memory" in err.lower() or "allocator is trying" in err or "failed to allocate" in err:
        return "memory", "memory limit exhausted"
    if rc == 70 or "harness panicked" in err:
        return "harness", err[-600:]
    if rc < 0:
        return "crash", f"killed by signal {-rc} {err[-200:].strip()}"
    return "exit", f"exit status {rc} {err[-200:].strip()}"


class Found(Exception):
    def __init__(self, run, path, text, index):
        self.run, self.path, self.text, self.index = run, path, text, index


class Totals:
    def __init__(self):
        self.evals = self.nontrivial = self.unknown = 0
        self.counts, self.maxima, self.families, self.runs, self.samples = {}, {}, {}, [], []
        self.rules, self.unknown_why, self.ends = [], "", {}
        self.digests = []

    def add(self, run, dirs, secs, ends):
        ev = unk = 0
        cnt, mx = {}, {}
        seen = set()
        for d in dirs:
            try:
                s = json.load(open(d + "/stats.json"))
            except (OSError, ValueError):
                continue
            ev += s["evals"]
            unk += s["unknown"]
            self.unknown_why = s["unknown_why"] or self.unknown_why
            for k, v in s["counts"].items():
                cnt[k] = cnt.get(k, 0) + v
            for k, v in s["maxima"].items():
                mx[k] = max(mx.get(k, 0), v)
            for k, v in s["families"].items():
                self.families[k] = self.families.get(k, 0) + v
            if len(self.samples) < 3 and s["samples"]:
                self.samples.append(s["samples"][0])
            if s["rule"] not in self.rules:
                self.rules.append(s["rule"])
            a = array.array("Q")
            try:
                a.frombytes(open(d + "/hashes", "rb").read())
            except (OSError, ValueError):
                pass
            seen.update(a)
        self.evals += ev
        self.unknown += unk
        self.nontrivial += len(seen)
        self.runs.append(dict(mode=run.mode, build=run.build, note=run.note, evaluations=ev, distinct_nontrivial=len(seen),
                              seconds=round(secs, 1), observed=cnt, largest=mx, **({"process_ends": ends} if ends else {})))


def shard_cmd(run, start, step, d, left):
    return [run.exe(), "run", run.mode, str(run.seed()), str(start), str(run.end), str(step), d, f"{left:.2f}"]


def execute(run, totals, scratch):
    """run one mode on all cores; raises Found at the first violation"""
    exe = run.exe()
    t0 = time.time()
    deadline = t0 + run.secs
    watchdog = t0 + run.secs * 2 + 240
    dirs, ends = [], {}

    def launch(w, start):
        d = tempfile.mkdtemp(dir=scratch, prefix=f"{run.mode}-{run.build}-")
        dirs.append(d)
        out, err = open(d + "/out", "wb"), open(d + "/err", "wb")
        p = subprocess.Popen(shard_cmd(run, start, run.procs, d, max(0.05, deadline - time.time())),
                             stdout=out, stderr=err, env=run.environ(d), cwd=d)
        return dict(p=p, d=d, w=w, start=start)

    live = [launch(w, w) for w in range(run.procs)]
    confirmed_checks = []
    try:
        while live:
            time.sleep(0.005 if run.tolerate else 0.05)
            for j in list(live):
                out = open(j["d"] + "/out", errors="replace").read() if os.path.getsize(j["d"] + "/out") and not run.mode.endswith("digest") else ""
                for line in out.splitlines():
                    if line.startswith("BAD\t") and line.count("\t") >= 3:
                        _, i, path, text = line.split("\t", 3)
                        raise Found(run, path, text, int(i))
                rc = j["p"].poll()
                if rc is None:
                    if time.time() > watchdog:
                        raise Inconclusive(f"{run.mode}: a worker ran past the watchdog")
                    continue
                live.remove(j)
                if rc == 0:
                    if run.mode.endswith("digest"):
                        t = open(j["d"] + "/out", errors="replace").read()
                        if "BAD\t" in t:
                            l = [l for l in t.splitlines() if l.startswith("BAD\t")][0]
                            _, i, path, text = l.split("\t", 3)
                            raise Found(run, path, text, int(i))
                    continue
                err = open(j["d"] + "/err", errors="replace").read()
                kind, text = classify(rc, err)
                if kind == "harness":
                    raise Inconclusive(f"{run.mode}: {text}")
                try:
                    i = int(open(j["d"] + "/journal").read().strip())
                except (OSError, ValueError):
                    raise Inconclusive(f"{run.mode}: worker ended early: {text}")
                ends[kind] = ends.get(kind, 0) + 1
                if run.tolerate and kind in ("stack", "hang", "memory"):
                    pass
                else:
                    f = confirm(run, i, scratch, kind, text)
                    if f:
                        raise f
                if time.time() < deadline and i + run.procs < run.end:
                    live.append(launch(j["w"], i + run.procs))
    finally:
        for j in live:
            j["p"].kill()
            j["p"].wait()
    totals.add(run, dirs, time.time() - t0, ends)
    return dirs


def one(run, path, scratch, factor=1):
    """run one case in a process of its own: (kind, text)"""
    e = run.environ(scratch)
    e["P2T_CPU_MS"] = str(int(run.cpu * factor * 1000))
    try:
        p = subprocess.run([run.exe(), "one", run.mode, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=e, cwd=scratch, timeout=run.cpu * factor * 6 + 120)
    except subprocess.TimeoutExpired:
        return "timeout", "wall-clock watchdog"
    out = p.stdout.decode(errors="replace")
    for l in out.splitlines():
        if l.startswith("BAD "):
            return "bad", l[4:]
    if p.returncode == 0:
        return "held", ""
    return classify(p.returncode, p.stderr.decode(errors="replace"))


def confirm(run, i, scratch, kind, note=""):
    """a worker died: is it this case, alone, that does it?"""
    path = f"{scratch}/dead-{run.mode}-{i}.txt"
    p = subprocess.run([run.exe(), "gen", run.mode, str(run.seed()), str(i)], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=run.environ(scratch))
    if p.returncode != 0:
        raise Inconclusive(f"{run.mode}: case {i} cannot be generated again: {p.stderr[-300:]}")
    open(path, "wb").write(p.stdout)
    k, text = one(run, path, scratch, factor=2 if kind == "hang" else 1)
    if kind == "race" and k != kind:
        # the schedule decides; a report of the detector stands by itself
        return Found(run, path, note, i)
    if k in ("held", "timeout", "harness", "exit"):
        raise Inconclusive(f"{run.mode}: a worker ended with '{kind}' at case {i}, which alone gives '{k}' {text}")
    if run.tolerate and k in ("stack", "hang", "memory"):
        return None
    return Found(run, path, text, i)


def reduce(f, scratch, secs=25):
    out = f"{scratch}/small.txt"
    try:
        p = subprocess.run([f.run.exe(), "shrink", f.run.mode, f.path, out, str(secs)], env=f.run.environ(scratch), cwd=scratch,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs * 3 + 60)
        if p.returncode == 0 and os.path.exists(out):
            note = p.stdout.decode(errors="replace").strip()
            if note and note != "?":
                return out, note
    except subprocess.TimeoutExpired:
        pass
    return f.path, f.text


# ---------------------------------------------------------------- Miri
def miri(run, files, totals, scratch, secs, seed_flags="", fast=False):
    """`one MODE files` under Miri, a few files per process"""
    t0 = time.time()
    tgt = os.path.join(HARNESS, "target", "miri")
    env = cargo_env({"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks " + seed_flags})
    env.update(P2T_MEM_MB="0", P2T_STACK_KB="8192", P2T_SCRATCH=scratch, VERIF_TIER=TIER, RUST_BACKTRACE="0")
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--release", "--target-dir", tgt, "--bin", run.bin, "--"]
    # once alone, so that the parallel ones only execute
    if not files:
        raise Inconclusive("no cases for Miri")
    deadline = None
    queue = list(files)
    live, done, nontrivial = [], 0, 0
    first = True
    per = 3
    watchdog = time.time() + secs * 4 + 900

    lite = dict(env, MIRIFLAGS=env["MIRIFLAGS"] + " -Zmiri-disable-validation")  # twice as fast
    turn = [0]

    def launch(fs):
        turn[0] += 1
        so, se = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        p = subprocess.Popen(base + ["one", run.mode] + fs, cwd=HARNESS, env=lite if fast and turn[0] % 4 else env, stdout=so, stderr=se)
        live.append((p, fs, so, se))

    try:
        while True:
            if first:
                if not live:
                    launch([queue.pop(0)])
            elif queue and len(live) < CORES and time.time() < deadline:
                fs, queue = queue[:per], queue[per:]
                launch(fs)
            for x in list(live):
                p, fs, so, se = x
                rc = p.poll()
                if rc is None:
                    continue
                live.remove(x)
                so.seek(0)
                se.seek(0)
                o, e = so.read().decode(errors="replace"), se.read().decode(errors="replace")
                held = [l for l in o.splitlines() if l.startswith(("HELD", "BAD", "UNKNOWN"))]
                done += len(held)
                nontrivial += sum(l == "HELD true" for l in held)
                if "Undefined Behavior" in e or "error: memory leaked" in e or "Data race" in e:
                    line = [l for l in e.splitlines() if l.startswith("error")][0]
                    f = fs[min(len(held), len(fs) - 1)]
                    raise Found(run, f, "Miri: " + line[:300], -1)
                bad = [l for l in held if l.startswith("BAD")]
                if bad:
                    raise Found(run, fs[held.index(bad[0])], "under Miri: " + bad[0][4:], -1)
                if rc != 0 and not (run.tolerate and ("overflow" in e or "stack" in e)):
                    raise Inconclusive(f"Miri failed: {e[-800:]}")
                if first:
                    first = False
                    deadline = time.time() + secs
                    t0 = time.time()
            if not first and not live and (not queue or time.time() >= deadline):
                break
            if deadline and time.time() > deadline + 60:
                break  # what is slow to interpret stays unfinished
            if time.time() > watchdog:
                raise Inconclusive("Miri ran past the watchdog")
            time.sleep(0.05)
    finally:
        for p, _, _, _ in live:
            p.kill()
            p.wait()
    totals.evals += done
    totals.nontrivial += nontrivial
    totals.runs.append(dict(mode=run.mode, build="miri", evaluations=done, distinct_nontrivial=nontrivial,
                            seconds=round(time.time() - t0, 1), observed={"cases_interpreted": done}))
    if done == 0:
        raise Inconclusive("Miri finished no case")


def small_cases(run, want, scratch, max_points, cpu=0.3, us=20000):
    """case files that end quickly in the native build"""
    files, i = [], 0
    d = f"{scratch}/small-{run.mode}"
    os.mkdir(d)
    e = run.environ(scratch)
    e["P2T_CPU_MS"] = str(int(cpu * 1000))
    while len(files) < want and i < want * 12:
        i += 1
        path = f"{d}/{i}.txt"
        p = subprocess.run([run.exe(), "gen", run.mode, str(run.seed() + 17), str(i * 12 + i % 12)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
        if p.returncode != 0 or p.stdout.count(b"\n") > max_points:
            continue
        open(path, "wb").write(p.stdout)
        q = subprocess.run([run.exe(), "one", run.mode, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
        t = re.search(rb"TIME (\d+)", q.stdout)
        if q.returncode == 0 and t and int(t.group(1)) < us:
            files.append(path)
    return files


def platforms(run, totals, scratch):
    """the same cases interpreted for a 32-bit and for a big-endian platform"""
    files = small_cases(run, 120, scratch, 40)
    if len(files) < 20:
        raise Inconclusive("no cases for other platforms")

    def digests(out):
        return [l for l in out.decode(errors="replace").splitlines() if l.startswith("D\t")]
    native = digests(subprocess.run([run.exe(), "one", run.mode] + files, stdout=subprocess.PIPE, env=run.environ(scratch)).stdout)
    if len(native) != len(files):
        raise Inconclusive("no native digests")
    env = cargo_env({"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"})
    env.update(P2T_MEM_MB="0", P2T_STACK_KB="8192", P2T_SCRATCH=scratch, VERIF_TIER=TIER, RUST_BACKTRACE="0")
    for target in ("i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"):
        t0 = time.time()
        base = ["cargo", "+nightly", "miri", "run", "--offline", "--release", "--target", target, "--target-dir", os.path.join(HARNESS, "target", "miri"),
                "--bin", run.bin, "--", "one", run.mode]
        parts = [files[k::CORES] for k in range(CORES)]
        got = {}
        live = []
        for k, part in enumerate(parts):
            live.append((subprocess.Popen(base + part, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE), part))
        for p, part in live:
            try:
                o, e = p.communicate(timeout=900)
            except subprocess.TimeoutExpired:
                for q, _ in live:
                    q.kill()
                    q.wait()
                raise Inconclusive(f"Miri for {target} did not end")
            d = digests(o)
            if p.returncode != 0 and b"Undefined Behavior" in e:
                raise Found(run, part[min(len(d), len(part) - 1)], f"Miri for {target}: " + [l for l in e.decode(errors="replace").splitlines() if l.startswith("error")][0][:300], -1)
            if p.returncode != 0 or len(d) != len(part):
                raise Inconclusive(f"Miri for {target} failed: " + e.decode(errors="replace")[-600:])
            got.update(zip(part, d))
        for f, want in zip(files, native):
            if got[f] != want:
                raise Found(run, f, f"the result on {target} is another", -1)
        totals.evals += len(files)
        totals.runs.append(dict(mode=run.mode, build="miri " + target, evaluations=len(files), distinct_nontrivial=0,
                                seconds=round(time.time() - t0, 1), observed={"digests_equal_to_native": len(files)}))


# ---------------------------------------------------------------- properties
def runs(*rs):
    def go(totals, scratch):
        for r in rs:
            execute(r, totals, scratch)
    go.runs = rs
    return go


I = dict(bin="iworker")
Q = dict(bin="qworker")
A = dict(bin="aworker")


def c07(totals, scratch):
    for r in c07.runs:
        execute(r, totals, scratch)


c07.runs = (
    Run("total", "checked", quick=8, thorough=240, note="debug assertions and overflow checks on"),
    Run("total", quick=5, thorough=120, offset=1),
    Run("xtotal", "checked", quick=4, thorough=120, note="debug assertions and overflow checks on"),
    Run("ltotal", "checked", quick=6, thorough=200, cpu=60, note="debug assertions and overflow checks on"),
    Run("giant", "stack", quick=1000, thorough=3000, cpu=200, stack=2048, end=24, tend=240,
        note="library unoptimised, with overflow checks, on a thread with the default 2 MB stack"),
    Run("giant", quick=1000, thorough=3000, cpu=120, stack=2048, end=48, tend=960, offset=1),
)

HOSTILE = dict(bin="iworker", cpu=0.3, mem=2000, tolerate=True, stack=8192)


def c08(totals, scratch):
    odd = []
    for r in c08.runs:
        dirs = execute(r, totals, scratch)
    m = c08.runs[-1]
    odd = suspects(m, dirs, scratch, 200 if THOROUGH else 12)
    files = small_cases(m, 2000 if THOROUGH else 100, scratch, 20, us=400)
    # taking turns
    mixed = []
    for k in range(max(len(odd), len(files))):
        mixed += odd[3 * k : 3 * k + 3] + files[k : k + 1]
    miri(m, mixed, totals, scratch, 900 if THOROUGH else 40, fast=True)
    totals.runs[-1]["observed"]["odd_cases_offered"] = len(odd)


def suspects(run, dirs, scratch, per_kind):
    """files of cases that a native run marked as odd: the smallest of every kind of oddity"""
    kinds = {}
    for d in dirs:
        try:
            for l in open(d + "/suspects"):
                f = l.split()
                if len(f) == 3:
                    kinds.setdefault(int(f[2]), set()).add((int(f[1]), int(f[0])))
        except OSError:
            pass
    files = []
    for rank in range(per_kind):
        for k in sorted(kinds):
            s = sorted(kinds[k])
            if rank < len(s):
                files.append(s[rank][1])
    out = []
    for i in files:
        p = subprocess.run([run.exe(), "gen", run.mode, str(run.seed()), str(i)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=run.environ(scratch))
        path = f"{scratch}/odd-{run.build}-{i}.txt"
        if p.returncode == 0:
            open(path, "wb").write(p.stdout)
            out.append(path)
    return out


c08.runs = (
    Run("hostile", "ub", quick=12, thorough=400, note="nightly -Zub-checks", **HOSTILE),
    Run("hostile", "asan", quick=8, thorough=400, offset=1, note="AddressSanitizer",
        **{**HOSTILE, "mem": 0, "env": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=2000"}}),
    Run("hostile", "msan", quick=8, thorough=400, offset=3, note="MemorySanitizer",
        **{**HOSTILE, "mem": 0, "cpu": 1, "env": {"MSAN_OPTIONS": "handle_segv=0:abort_on_error=1:max_allocation_size_mb=2000"}}),
    Run("tiny", "ub", quick=5, thorough=60, offset=2, **HOSTILE),
)


def c10(totals, scratch):
    # the same cases in other processes, other builds, other environment, and,
    # the work being divided otherwise, after other cases
    ref = {}
    for r in c10.runs:
        dirs = execute(r, totals, scratch)
        if not r.mode.endswith("digest"):
            continue
        got = {}
        for d in dirs:
            for l in open(d + "/out", errors="replace"):
                if l.startswith("D\t"):
                    _, k, v = l.rstrip("\n").split("\t")
                    got[k] = v
        if r.mode not in ref:
            ref[r.mode] = got, r
        old, first = ref[r.mode]
        bad = [k for k in got if k in old and got[k] != old[k]]
        totals.runs[-1]["observed"]["digests_equal_to_first_process"] = len([k for k in got if old.get(k) == got[k]])
        if len(got) == 0 or len(set(got) & set(old)) == 0:
            raise Inconclusive("no digests to compare")
        if bad:
            # which case: the one with this aux
            p = subprocess.run([r.exe(), "find", r.mode, str(r.seed()), bad[0].split("-")[0], str(r.end)], stdout=subprocess.PIPE, env=r.environ(scratch), text=True)
            if p.returncode != 0:
                raise Inconclusive("digest of an unknown case")
            path = f"{scratch}/digest.txt"
            open(path, "w").write(p.stdout)
            raise Found(r, path, f"the result differs between processes or builds ({first.build} and {r.build})", -1)
    if THOROUGH:
        for r in c10.runs:
            if r.mode in ("digest", "xdigest") and r.note == "process 1":
                platforms(r, totals, scratch)
    # data races, with the interpreter's scheduler
    m = c10.runs[0]
    files = small_cases(m, 400 if THOROUGH else 40, scratch, 9)
    miri(m, files, totals, scratch, 400 if THOROUGH else 12)


OTHER = dict(env={"MALLOC_PERTURB_": "165", "MALLOC_ARENA_MAX": "1", "LC_ALL": "C", "PADDING": "x" * 5000}, stack=3000)
c10.runs = (
    Run("determinism", quick=10, thorough=300),
    Run("ldeterminism", quick=4, thorough=120, cpu=60),
    Run("threads", quick=4, thorough=120, cpu=60),
    Run("threads", "tsan", quick=10, thorough=400, cpu=60, mem=0, offset=1, procs=4, note="ThreadSanitizer",
        env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_thread_leaks=0"}),
    Run("digest", quick=60, thorough=600, end=400000, tend=3000000, note="process 1"),
    Run("digest", quick=60, thorough=600, end=400000, tend=3000000, procs=7,
        note="process 2, other environment, stack and division of the work", **OTHER),
    Run("digest", "checked", quick=60, thorough=600, end=400000, tend=3000000, procs=11, note="debug assertions on"),
    Run("xdigest", quick=30, thorough=200, end=40000, tend=400000, note="process 1"),
    Run("xdigest", "checked", quick=30, thorough=200, end=40000, tend=400000, procs=7, note="debug assertions on", **OTHER),
    Run("ldigest", quick=10, thorough=300, end=1000, tend=10000, cpu=60, note="process 1"),
    Run("ldigest", "checked", quick=12, thorough=300, end=1000, tend=10000, cpu=60, procs=7, note="debug assertions on", **OTHER),
)

CHECKS = {
    "C01": runs(Run("tiling", quick=16, thorough=500), Run("ltiling", quick=5, thorough=150, cpu=60)),
    "C02": runs(Run("constraints", quick=16, thorough=500), Run("lconstraints", quick=5, thorough=150, cpu=60)),
    "C03": runs(Run("delaunay", quick=16, thorough=500), Run("ldelaunay", quick=5, thorough=150, cpu=60)),
    "C04": runs(Run("steiner", quick=16, thorough=500), Run("lsteiner", quick=5, thorough=150, cpu=60)),
    "C05": runs(Run("views", quick=12, thorough=300), Run("lviews", quick=6, thorough=150, cpu=120)),
    "C06": runs(Run("builder", quick=14, thorough=300), Run("lbuilder", quick=5, thorough=150, cpu=60)),
    "C07": c07,
    "C08": c08,
    "C09": runs(Run("invariance", quick=13, thorough=400), Run("xinvariance", quick=4, thorough=120),
                Run("linvariance", quick=5, thorough=150, cpu=60)),
    "C10": c10,
    "C11": runs(Run("protocol", quick=14, thorough=300), Run("lprotocol", quick=5, thorough=150, cpu=60)),
    "C12": runs(
        Run("state", quick=15, thorough=400, **I),
        Run("xstate", quick=6, thorough=200, **I),
        Run("state", "f32", quick=5, thorough=120, offset=1, **I),
        Run("lstate", quick=5, thorough=150, cpu=60, **I),
    ),
    "C13": runs(Run("loader", quick=12, thorough=240), Run("lloader", quick=5, thorough=150, cpu=60)),
    "C14": runs(
        Run("full", "f32", quick=10, thorough=300),
        Run("extreme", "f32", quick=7, thorough=200),
        Run("full", "checkedf32", quick=5, thorough=100, offset=1, note="debug assertions on"),
        Run("views", "f32", quick=2, thorough=60),
        Run("protocol", "f32", quick=2, thorough=60),
        Run("loader", "f32", quick=3, thorough=60),
        Run("invariance", "f32", quick=3, thorough=60),
        Run("lfull", "f32", quick=5, thorough=150, cpu=60),
    ),
    "C15": runs(
        Run("extreme", quick=14, thorough=400),
        Run("extreme", "checked", quick=4, thorough=120, offset=1, note="debug assertions on"),
    ),
    "C16": runs(
        Run("selfcheck", quick=12, thorough=240, **I),
        Run("xselfcheck", quick=4, thorough=100, **I),
        Run("selfcheck", "f32", quick=3, thorough=60, offset=1, **I),
        Run("lselfcheck", quick=4, thorough=100, cpu=60, **I),
    ),
    "C17": runs(
        Run("front", quick=12, thorough=240, **I),
        Run("xfront", quick=3, thorough=60, **I),
        Run("front", "f32", quick=3, thorough=60, offset=1, **I),
        Run("lfront", quick=4, thorough=100, cpu=60, **I),
    ),
    "C18": runs(
        Run("queries", quick=8, thorough=240, **Q),
        Run("xqueries", quick=3, thorough=60, **Q),
        Run("queries", "f32", quick=3, thorough=60, offset=1, **Q),
        Run("lqueries", quick=5, thorough=100, cpu=60, **Q),
    ),
    "C19": runs(
        Run("memory", quick=5, thorough=200, **A),
        Run("xmemory", quick=2, thorough=60, **A),
        Run("memory", "f32", quick=2, thorough=60, offset=1, **A),
        Run("lmemory", quick=10, thorough=200, cpu=60, **A),
        Run("hmemory", quick=6, thorough=200, **{**HOSTILE, **A}),
        Run("fmemory", quick=4, thorough=60, **A),
    ),
}


# ---------------------------------------------------------------- findings
def known(prop):
    """{case hash: description} of recorded findings"""
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) case=([0-9a-f]{16}) (.*)", l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def case_hash(path):
    body = "".join(l for l in open(path, errors="replace") if not l.startswith("#"))
    return hashlib.sha256(body.encode()).hexdigest()[:16]


def evidence(prop, t, wall, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in manifest["checks"] if c["property"] == prop), "exploration")
    obs = {}
    for r in t.runs:
        for k, v in r["observed"].items():
            obs[k] = obs.get(k, 0) + v
    ev = dict(
        property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level,
        coverage=dict(
            evaluations=t.evals, distinct_nontrivial=t.nontrivial, rule=" / ".join(t.rules) or "see runs",
            samples=t.samples or ["(none kept)"], monitor_observed=obs, runs=t.runs, cases_per_family=t.families,
            undecided=t.unknown,
        ),
        assumptions=[
            "the harness's exact oracles (interval filter plus big integers) are right",
            "inputs are inside the supported domain stated in DESIGN.md (except for C08)",
            "held means: on these executions",
        ],
        wall_s=round(wall, 1), violations=violations,
    )
    tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))


def check(prop):
    t0 = time.time()
    totals = Totals()
    scratch = tempfile.mkdtemp(prefix=f"p2t-{prop}-")
    rc = 0
    try:
        try:
            CHECKS[prop](totals, scratch)
            if totals.evals == 0 or totals.nontrivial == 0:
                raise Inconclusive("nothing was observed")
            if totals.unknown * 50 > totals.evals:
                raise Inconclusive(f"{totals.unknown} of {totals.evals} cases undecided: {totals.unknown_why}")
            print(f"{prop} held on {totals.evals} executions ({totals.nontrivial} distinct and non-trivial)")
            evidence(prop, totals, time.time() - t0, 0)
        except Found as f:
            h = case_hash(f.path)
            kn = known(prop)
            if h in kn:
                print(f"KNOWN-FINDING: property={prop} {kn[h]}")
                evidence(prop, totals, time.time() - t0, 0)
            else:
                path, text = reduce(f, scratch) if f.index >= 0 else (f.path, f.text)
                out = os.path.join(HERE, "replays")
                os.makedirs(out, exist_ok=True)
                keep = os.path.join(out, f"{prop}-{case_hash(path)}.txt")
                body = [l for l in open(path, errors="replace") if not l.startswith(("# property", "# run"))]
                with open(keep, "w") as g:
                    g.write(f"# property {prop}\n# run {list(all_runs(prop)).index(f.run)}\n# {f.text}\n" + "".join(body))
                print(f"{prop}: {text} [{f.run.mode}, build {f.run.build}, seed {SEED}, case {f.index}]")
                print(f"VIOLATION property={prop} replay={keep}")
                totals.evals = max(totals.evals, 1)
                evidence(prop, totals, time.time() - t0, 1)
                rc = 1
    except Inconclusive as e:
        print(f"{prop} inconclusive: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def all_runs(prop):
    return CHECKS[prop].runs


def replay(path):
    text = open(path).read()
    prop = re.search(r"^# property (\S+)", text, re.M).group(1)
    run = all_runs(prop)[int(re.search(r"^# run (\d+)", text, re.M).group(1))]
    scratch = tempfile.mkdtemp(prefix="p2t-replay-")
    try:
        kind, what = one(run, os.path.abspath(path), scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(f"{prop} {run.mode} build {run.build}: {kind} {what}")
    return 0 if kind == "held" else 1


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "setup":
        for p in CHECKS:
            for r in CHECKS[p].runs:
                build(r.build, r.bin)
        # the interpreter's standard library
        subprocess.run(["cargo", "+nightly", "miri", "setup"], cwd=HARNESS, env=cargo_env({}), check=True)
        return 0
    return check(sys.argv[1])


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Inconclusive as e:
        print(f"inconclusive: {e}")
        sys.exit(2)
