"""Runs harness jobs in shards, isolates crashes and hangs, and collects what the monitors observed."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, tempfile, threading, time

import build as B

CRASH_LIMIT = 4      # per shard
ENV = {
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:check_initialization_order=1:strict_init_order=0:allocator_may_return_null=1:max_allocation_size_mb=4096",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0"},
}


def signature(stderr, rc):
    """A stable name of a crash: its kind and the innermost frame that belongs to the project."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", stderr)
    if m:
        kind = "asan:" + m.group(1)
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", stderr)
        if m:
            kind = "tsan:" + m.group(1).strip().replace(" ", "-")
    if not kind:
        m = re.search(r"(\S+?):(\d+)(?::\d+)?: runtime error: ([^\n]{0,60})", stderr)
        if m:
            return "ubsan:" + os.path.basename(m.group(1)) + ":" + re.sub(r"[-\d.e+]+", "N", m.group(3)).strip()
    if not kind:
        m = re.search(r"Assertion [`'](.{0,80})' failed", stderr)
        if m:
            return "assert:" + m.group(1)
    if not kind:
        m = re.search(r"terminate called after throwing[^\n]*", stderr)
        kind = "terminate" if m else ("signal:%d" % -rc if rc < 0 else "exit:%d" % rc)
    frame = ""
    for m in re.finditer(r"^\s+#\d+\s+(?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", stderr, re.M):
        f = m.group(2)
        if "/src/" in f and "external_library" not in f and "libsanitizer" not in f or "/include/snn/" in f:
            frame = os.path.basename(f) + ":" + m.group(1).split("(")[0].split("<")[0]
            break
    return kind + (":" + frame if frame else "")


class Limit:
    """When the jobs must be over. After a crash or a hang the verdict is known: the others only get a little more time."""

    def __init__(self, seconds, after_crash):
        self.end, self.after_crash = time.time() + seconds, after_crash

    def shorten(self):
        self.end = min(self.end, time.time() + self.after_crash)

    def __call__(self):
        return self.end


class Shard:
    def __init__(self, exe, harness, variant, i, n, tier, seed, only, scale, tmp, stall, limit):
        self.__dict__.update(locals())
        self.results, self.crashes, self.problems = [], [], []
        self.proc = None

    def args(self, out, progress, scratch, only=None, start=0, alone=False):
        a = [self.exe, "--tier", self.tier, "--seed", str(self.seed), "--out", out, "--progress", progress,
             "--scratch", scratch, "--from", str(start), "--scale", repr(self.scale)]
        if not alone:
            a += ["--shard", f"{self.i}/{self.n}"]
        if only:
            a += ["--only", only]
        return a

    def once(self, only, start, alone, stall, deadline):
        """Returns (rc, stderr, last progress line, stalled)."""
        tag = f"{self.harness}-{self.variant}-{self.i}-{'alone-' if alone else ''}{start}-{os.urandom(3).hex()}"
        out, progress = os.path.join(self.tmp, tag + ".out"), os.path.join(self.tmp, tag + ".progress")
        err, scratch = os.path.join(self.tmp, tag + ".err"), os.path.join(self.tmp, tag + ".scratch")
        env = dict(os.environ, **ENV.get(self.variant, {}))
        env.setdefault("OMP_NUM_THREADS", "2")
        with open(err, "w") as e:
            self.proc = subprocess.Popen(self.args(out, progress, scratch, only, start, alone), stdout=subprocess.DEVNULL, stderr=e, env=env,
                                         start_new_session=True, cwd=self.tmp)
            last, since, stalled = None, time.time(), None
            while True:
                try:
                    self.proc.wait(0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = self.read(progress)
                if cur != last:
                    last, since = cur, time.time()
                if time.time() - since > stall or time.time() > deadline():
                    stalled = "deadline" if time.time() > deadline() else "stall"
                    try:
                        os.killpg(self.proc.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    self.proc.wait()
                    break
        last = self.read(progress)
        shutil.rmtree(scratch, ignore_errors=True)
        with open(err, errors="replace") as f:
            stderr = f.read()[-200000:]
        lines = []
        if os.path.exists(out):
            with open(out, errors="replace") as f:
                for l in f:
                    try:
                        lines.append(json.loads(l))
                    except ValueError:
                        pass
        return self.proc.returncode, stderr, last, stalled, lines

    @staticmethod
    def read(p):
        try:
            with open(p) as f:
                return f.read().strip()
        except OSError:
            return ""

    def run(self, deadline):
        start, crashes = 0, 0
        while True:
            rc, stderr, last, stalled, lines = self.once(self.only, start, False, self.stall, deadline)
            self.results += lines
            if stalled == "deadline":
                self.problems.append(f"time limit reached in {self.harness}:{self.variant} shard {self.i} at {last}")
                return
            if rc == 0 and last == "done" and not stalled:
                return
            if not last or last == "done":
                self.problems.append(f"{self.harness}:{self.variant} shard {self.i} ended with {rc}: {stderr[-1500:]}")
                return
            pos, case = last.split()[:2]
            if rc in (-9, -15) and not stalled:
                self.problems.append(f"{self.harness}:{self.variant} {case} was ended from outside ({rc})")
                return
            if stalled:
                # the machine may have been busy: once more, alone and with more time
                rc2, err2, last2, st2, lines2 = self.once(case, 0, True, self.stall * 3, deadline)
                if st2 == "stall":
                    self.crashes.append(("hang", case, f"no progress within {self.stall * 3} s, twice"))
                elif rc2 != 0:
                    self.crashes.append((signature(err2, rc2), case, err2[:3000]))
                else:
                    self.results += lines2
            else:
                self.crashes.append((signature(stderr, rc), case, crash_text(stderr)))
            if self.crashes:
                self.limit.shorten()
            crashes += 1
            if crashes >= CRASH_LIMIT:
                self.problems.append(f"{self.harness}:{self.variant} shard {self.i}: stopped after {crashes} crashes")
                return
            start = int(pos) + 1


def crash_text(stderr):
    for k in ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error:", "Assertion", "terminate called"):
        i = stderr.find(k)
        if i >= 0:
            return stderr[max(0, i - 100):i + 2500]
    return stderr[-2500:]


def run_jobs(exes, jobs, tier, seed, time_limit, shards=8, stall=60):
    """jobs: list of (harness, variant, only, scale). Returns list of (job, Shard)."""
    tmp = tempfile.mkdtemp(prefix="vcheck-")
    deadline = Limit(time_limit, 60 if tier == "quick" else 1200)
    todo = []
    for j in jobs:
        h, v, only, scale = j
        for i in range(shards):
            todo.append((j, Shard(exes[(h, v)], h, v, i, shards, tier, seed, only, scale, tmp, stall, deadline)))
    try:
        with cf.ThreadPoolExecutor(B.JOBS) as ex:
            fs = [ex.submit(s.run, deadline) for _, s in todo]
            for f in fs:
                f.result()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return todo
