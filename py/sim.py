"""Workers (one fork server per thread and binary) and single simulated runs."""
import json, os, re, shutil, signal, subprocess, tempfile, threading

ENV = {k: v for k, v in os.environ.items() if not re.match(r"^(OMP_|GOMP_|LD_|MALLOC_|FFTW|SHTNS)", k)}


class HarnessError(Exception):
    pass


def plan_text(plan):
    return ";".join("%s=%s" % (k, v) for k, v in plan.items())


class Worker:
    def __init__(self, path, cpu=None):
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE if False else None,
                                  env=ENV, start_new_session=True)
        if cpu is not None:
            try:
                os.sched_setaffinity(self.p.pid, {cpu})
            except OSError:
                pass
        line = self.p.stdout.readline()
        if not line.startswith(b"READY"):
            raise HarnessError("driver did not start: %r" % line)

    def run(self, text):
        self.p.stdin.write(text.encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("driver died on: " + text[:2000])
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()


class Res:
    """One run: r = counters from the simulator, files = directory afterwards, con = console."""
    __slots__ = ("r", "files", "con", "plan", "kind", "variant")

    def __init__(self, r, files, con, plan, kind, variant):
        self.r, self.files, self.con, self.plan, self.kind, self.variant = r, files, con, plan, kind, variant

    def fingerprint(self):
        return (self.r["hash"], self.r["shash"], self.r["ev"], self.r["status"], tuple(self.r["viol"]), self.r["data"],
                tuple(sorted((k, hash(v)) for k, v in self.files.items())), hash(self.con))


class Ctx:
    """Runs plans.  One per check; thread safe (each thread has its own workers)."""

    def __init__(self, build, ncpu=8):
        self.build = build
        self.root = tempfile.mkdtemp(prefix="sfk_run_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.tl = threading.local()
        self.lock = threading.Lock()
        self.workers = []
        self.ncpu = ncpu
        self.nthreads = 0
        self.stats = {}
        self.cache = {}
        self.nruns = 0
        self.shashes = set()
        self.allowed = sorted(os.sched_getaffinity(0))

    def close(self):
        for w in self.workers:
            w.close()
        shutil.rmtree(self.root, ignore_errors=True)

    def _slot(self):
        if not hasattr(self.tl, "id"):
            with self.lock:
                self.tl.id = self.nthreads
                self.nthreads += 1
            self.tl.w = {}
            self.tl.n = 0
        return self.tl

    def fresh(self):
        """Forget this thread's workers: the next run starts new driver processes."""
        tl = self._slot()
        for w in tl.w.values():
            w.close()
            with self.lock:
                if w in self.workers:
                    self.workers.remove(w)
        tl.w = {}

    def worker(self, kind, variant):
        tl = self._slot()
        k = (kind, variant)
        if k not in tl.w:
            w = Worker(self.build.bins[k], self.allowed[tl.id % len(self.allowed)])
            tl.w[k] = w
            with self.lock:
                self.workers.append(w)
        return tl.w[k]

    def scratch(self):
        tl = self._slot()
        tl.n += 1
        d = os.path.join(self.root, "t%02d_%07d" % (tl.id, tl.n))
        os.makedirs(d + "/run")
        return d

    def run_in(self, d, kind, variant, plan, count=True, keep=None):
        """One run in directory d (made by scratch()); d is left in place."""
        p = dict(plan)
        p["dir"] = d + "/run"
        p["con"] = d + "/con"
        r = self.worker(kind, variant).run(plan_text(p))
        if 93 <= r["status"] <= 99:
            con = open(d + "/con", "rb").read()[-500:] if os.path.exists(d + "/con") else b""
            raise HarnessError("driver set-up failed (status %d): %r plan %s" % (r["status"], con, plan_text(p)[:1500]))
        files = {}
        for f in sorted(os.listdir(d + "/run")):
            q = os.path.join(d, "run", f)
            if os.path.isfile(q):
                with open(q, "rb") as fh:
                    files[f] = fh.read()
        sub = os.path.normpath(os.path.join(d, "run", plan.get("out", ".")))
        if sub != d + "/run":
            files = {("outside the output directory: " + f if f.endswith(".csv") else f): b for f, b in files.items()}
            for f in sorted(os.listdir(sub)) if os.path.isdir(sub) else []:
                if os.path.isfile(os.path.join(sub, f)):
                    with open(os.path.join(sub, f), "rb") as fh:
                        files[f] = fh.read()
        with open(d + "/con", "rb") as fh:
            con = fh.read()
        # a run that died on the wall clock is not a deterministic outcome
        if r["status"] == 256 + 14:
            r["viol"] = r["viol"] + ["timeout: no end after %s s of wall clock" % p.get("wall", 120)]
        res = Res(r, files, con, plan, kind, variant)
        if count:
            with self.lock:
                self.nruns += 1
                self.shashes.add(r["shash"])
                st = self.stats
                for k in COUNTED:
                    if r[k]:
                        st[k] = st.get(k, 0) + r[k]
                if not r["steps"] and r["finished"] and not r["status"] and plan.get("sc") == "main" and "nt" in plan:
                    st["steps"] = st.get("steps", 0) + max(0, int(plan["nt"]) - 1)      # a run without the reference model beside it
                    st["simtime"] = st.get("simtime", 0.0) + max(0, int(plan["nt"]) - 1) * float(plan["dt"])
                st["simtime"] = st.get("simtime", 0.0) + r["simtime"]
                st["maxerr"] = max(st.get("maxerr", 0.0), float(r["maxerr"]))
                st["maxev"] = max(st.get("maxev", 0), r["ev"])
        return res

    def run(self, kind, variant, plan, files=None):
        d = self.scratch()
        try:
            for n, b in (files or {}).items():
                with open(os.path.join(d, "run", n), "wb") as fh:
                    fh.write(b)
            return self.run_in(d, kind, variant, plan)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def baseline(self, kind, variant, plan, files=None):
        """Fault-free serial reference run of the same code (cached)."""
        key = (kind, variant, plan_text(plan), tuple(sorted((files or {}).items())))
        with self.lock:
            if key in self.cache:
                return self.cache[key]
        b = self.run(kind, variant, plan, files)
        with self.lock:
            if len(self.cache) > 4000:
                self.cache.clear()
            self.cache[key] = b
        return b


COUNTED = ["ev", "regions", "team_threads", "short_teams", "preempt", "forced", "sync_ops", "allocs", "alloc_fail", "fftw_allocs",
           "io_ops", "io_open", "io_read", "io_write", "io_close", "f_open", "f_read_short", "f_read_eintr", "f_read_err",
           "f_write_short", "f_write_eintr", "f_write_err", "f_nospace", "f_close", "f_lost", "f_grow", "crashed", "signals", "clock_reads",
           "plan_calls", "transforms", "execs", "checks", "steps"]
