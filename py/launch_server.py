"""Launcher simulator: several processes running the real sim_class.py, one at a time, each parked before every
file-system change, write, process start and clock read until the seeded scheduler lets it go on, fail or die.

One JSON case per input line, one JSON result per output line.  Single threaded: it forks."""
import builtins, io, os, sys, json, random, shutil, signal, socket, struct, hashlib, errno, subprocess, time, datetime, calendar, re, stat, uuid, tempfile, threading, math, select

sys.dont_write_bytecode = True
REAL_PID = os.getpid
REAL_OPEN = builtins.open
ROOT = sys.argv[1]                      # a directory of this server's own
REPO = sys.argv[2]
HOME, CL, REC, TOOLS = [os.path.join(ROOT, x) for x in ("home", "clus", "rec", "tools")]

SOLVER = """#!/bin/sh
R=@REC@/s.$$
{ echo "cwd=$(pwd)"; echo "zero=$0"; echo "argc=$#"; echo "arg1=$1"; echo "arg2=$2"
echo "threads=$OMP_NUM_THREADS"; echo "levels=$OMP_MAX_ACTIVE_LEVELS"; } > $R.txt
cp "$0" $R.bin
cp "$1" $R.par 2>/dev/null
echo run >> "$2/phi.csv"
echo "solver console"
read rc 2>/dev/null < "@REC@/../solver.rc" || rc=0
sed -i 1d "@REC@/../solver.rc" 2>/dev/null
case "$rc" in
  -*) kill "$rc" $$ ;;
esac
exit $rc
"""
SBATCH = """#!/bin/sh
R=@REC@/b.$$
{ echo "cwd=$(pwd)"; echo "argc=$#"; echo "script=$1"; } > $R.txt
env > $R.env
cp "$1" $R.job 2>/dev/null || exit 1
echo "Submitted batch job 1"
"""
TIME = """#!/bin/sh
exec "$@"
"""


def executable(name, version):
    head = SOLVER.replace("@REC@", REC)
    body = "".join("# %s version %d line %06d ............................\n" % (name, version, i) for i in range(2600))
    return (head + body + "# end of %s version %d\n" % (name, version)).encode()


# ------------------------------------------------------------------ inside a launch
class Child:
    def __init__(self, sock, idx, spec):
        self.sock, self.idx, self.spec = sock, idx, spec
        self.active = False
        self.depth = 0
        self.started, self.waiting, self.pace = [], [], random.Random("%s/%d/pace" % (spec["eseed"], idx))

    def ask(self, msg):
        b = json.dumps(msg).encode()
        self.sock.sendall(struct.pack("<I", len(b)) + b)
        return json.loads(recv(self.sock))

    def park(self, kind, *args):
        """One step of this launch.  Returns the scheduler's directive for it."""
        if not self.active:
            return {"d": "go"}
        for p in list(self.waiting):
            if self.pace.random() < 0.3:
                self.background(p)
        self.active = False
        try:
            d = self.ask({"t": "ev", "k": kind, "a": [short(str(a)) for a in args]})
        finally:
            self.active = True
        if d["d"] == "kill":
            os.kill(REAL_PID(), signal.SIGKILL)
        if d["d"] == "raise":
            e = getattr(errno, d["e"])
            raise OSError(e, os.strerror(e), str(args[0]) if args else None)
        return d

    def background(self, p):
        try:
            p.begin()
        except (OSError, ValueError, subprocess.SubprocessError):
            pass                        # its own failure, not the launcher's

    def clock(self):
        if not self.active:
            return REAL_TIME()
        self.active = False
        try:
            return self.ask({"t": "clock"})["now"]
        finally:
            self.active = True


REAL_TIME = time.time


def recv(sock):
    def exact(n):
        b = b""
        while len(b) < n:
            c = sock.recv(n - len(b))
            if not c:
                raise EOFError
            b += c
        return b
    return exact(struct.unpack("<I", exact(4))[0])


def short(s):
    return s.replace(ROOT, "@")


def inside(p):
    try:
        if isinstance(p, int):
            return False
        p = os.path.abspath(os.fsdecode(p))
    except (TypeError, ValueError, OSError):
        return False
    return p.startswith(ROOT)


def seams(ch):
    # --- files
    class Raw(io.FileIO):
        def __init__(self, path, mode):
            super().__init__(path, mode)
            self.sim_path = path

        def fileno(self):
            if ch.active:
                raise io.UnsupportedOperation("fileno")
            return super().fileno()

        def isatty(self):
            return False

        def write(self, b):
            b = bytes(b)
            d = ch.park("write", self.sim_path, len(b))
            if d["d"] == "short":
                n = max(1, int(len(b) * d["f"]))
                return super().write(b[:n])
            if d["d"] == "torn":       # part of it reaches the disk, then the error
                n = torn(self.sim_path, len(b), d["f"])
                super().write(b[:n])
                if d.get("e"):
                    e = getattr(errno, d["e"])
                    raise OSError(e, os.strerror(e))
                os.kill(REAL_PID(), signal.SIGKILL)
            return super().write(b)

    def torn(path, n, f):
        k = int(n * f)
        return max(k, min(n, 2048)) if str(path).endswith(".run") else k

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not ch.active or opener is not None or not inside(file) or not set(mode) & set("wax+"):
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        ch.park("open", file, mode)
        ch.active = False
        try:
            raw = Raw(os.fspath(file), mode.replace("b", "").replace("t", ""))
        finally:
            ch.active = True
        if "b" in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        t.mode = mode
        return t
    builtins.open = sim_open
    io.open = sim_open

    real_os_write = os.write
    fds = {}
    real_os_open = os.open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        w = ch.active and inside(path) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if w:
            ch.park("open", path, "os.open")
        fd = real_os_open(path, flags, mode, dir_fd=dir_fd)
        if w:
            fds[fd] = path
        else:
            fds.pop(fd, None)
        return fd

    def os_write(fd, b):
        if ch.active and fd in fds:
            d = ch.park("write", fds[fd], len(b))
            if d["d"] == "short":
                return real_os_write(fd, bytes(b)[:max(1, int(len(b) * d["f"]))])
            if d["d"] == "torn":
                real_os_write(fd, bytes(b)[:torn(fds[fd], len(b), d["f"])])
                if d.get("e"):
                    e = getattr(errno, d["e"])
                    raise OSError(e, os.strerror(e))
                os.kill(REAL_PID(), signal.SIGKILL)
        return real_os_write(fd, b)
    os.open, os.write = os_open, os_write

    def unsupported(*a, **k):
        raise OSError(errno.ENOSYS, os.strerror(errno.ENOSYS))
    for n in ("sendfile", "copy_file_range", "splice"):
        if hasattr(os, n):
            setattr(os, n, unsupported)
    # --- everything the interpreter reports
    CHANGES = {"os.mkdir": 1, "os.rename": 2, "os.remove": 1, "os.rmdir": 1, "os.chdir": 1, "os.chmod": 1, "os.link": 2,
               "os.symlink": 2, "os.truncate": 1, "os.utime": 1, "shutil.rmtree": 1, "shutil.move": 2}

    def audit(ev, args):
        n = CHANGES.get(ev)
        if n and ch.active and args:
            if inside(args[0]):
                ch.park(ev.split(".")[1], *args[:n])
            elif ev != "os.chdir":
                refuse(args[0])
        elif ev == "open" and ch.active and isinstance(args[0], (str, bytes)) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) \
                and not inside(args[0]) and not os.fsdecode(args[0]).startswith("/dev/"):
            refuse(args[0])

    def refuse(path):       # nothing outside the scratch directory is changed, whatever the launcher does
        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)
    sys.addaudithook(audit)

    # --- processes
    RealPopen = subprocess.Popen

    class Done:
        pass

    class SimPopen(RealPopen):
        def __init__(self, args, *a, **k):
            self.plain = not ch.active
            if self.plain:
                RealPopen.__init__(self, args, *a, **k)
                return
            # The program runs when it is waited for, or at any earlier step of the launcher: nobody says how fast it is.
            self.args, self.returncode, self.pid = args, None, 30000 + len(ch.started)
            self.stdin = self.stdout = self.stderr = None
            k.setdefault("cwd", None)
            k["cwd"] = k["cwd"] or os.getcwd()
            k["env"] = dict(os.environ if k.get("env") is None else k["env"])
            self.call = (args, a, k, snapshot(ch))
            ch.started.append(self)
            ch.waiting.append(self)
            if subprocess.PIPE in (k.get("stdout"), k.get("stderr"), k.get("stdin")):
                self.begin()

        def begin(self):
            if self.plain or self not in ch.waiting:
                return
            ch.waiting.remove(self)
            args, a, k, attrs = self.call
            active, ch.active = ch.active, True
            try:
                self.go(args, a, k, attrs)
            finally:
                ch.active = active

        def go(self, args, a, k, attrs):
            text = args if isinstance(args, str) else " ".join(map(str, args))
            m = re.match(r"^\s*(?:exec\s+)?make\b([^;&|<>]*)$", text)
            if m:
                rc = ch_make(m.group(1).split(), k.get("cwd"))
                args, k = ("exit %d" % rc if rc >= 0 else "kill -%d $$" % -rc), {x: y for x, y in k.items() if x in ("stdout", "stderr", "stdin", "text", "universal_newlines")}
                k["shell"] = True
                a = ()
            else:
                d = ch.park("exec", text)
                ch.active = False
                try:
                    d2 = ch.ask({"t": "vars", "v": attrs})
                finally:
                    ch.active = True
                if d["d"] == "fail":
                    args, a = "exit 1", ()
                    k = {x: y for x, y in k.items() if x in ("stdout", "stderr", "stdin", "text", "universal_newlines", "cwd", "env")}
                    k["shell"] = True
                elif d["d"] == "lost":      # it ran, but its caller saw a failure
                    if isinstance(args, str):
                        args = "{ " + args + "\n}; exit 1"
            if k.get("stdout") is None:
                k["stdout"] = subprocess.DEVNULL
            if k.get("stderr") is None:
                k["stderr"] = subprocess.DEVNULL
            if k.get("stdin") is None:
                k["stdin"] = subprocess.DEVNULL
            ch.active = False
            try:
                RealPopen.__init__(self, args, *a, **k)
                if k["stdout"] != subprocess.PIPE and k["stderr"] != subprocess.PIPE and k["stdin"] != subprocess.PIPE:
                    RealPopen.wait(self)
                    self.took = ch.ask({"t": "took"})["s"]      # simulated: a run lasts hours
            finally:
                ch.active = True

        def poll(self):
            if not self.plain and self in ch.waiting:
                if ch.pace.random() < 0.5:
                    return None
                self.begin()
            return RealPopen.poll(self)

        def send_signal(self, sig):
            self.begin()
            RealPopen.send_signal(self, sig)

        took = 0.0

        def patience(self, timeout):
            if timeout is not None and self.took > timeout:
                self.took = 0.0
                ch.active = True
                raise subprocess.TimeoutExpired(self.args, timeout)

        def communicate(self, *a, **k):
            self.begin()
            s, ch.active = ch.active, False
            self.patience(a[1] if len(a) > 1 else k.pop("timeout", None))
            a = a[:1]
            try:
                return RealPopen.communicate(self, *a, **k)
            finally:
                ch.active = s

        def wait(self, *a, **k):
            self.begin()
            s, ch.active = ch.active, False
            self.patience(a[0] if a else k.get("timeout"))
            try:
                return RealPopen.wait(self)
            finally:
                ch.active = s

    def ch_make(words, cwd):
        """make, as the launcher sees it: a command that takes time and may leave anything behind."""
        goals = [w for w in words if not w.startswith("-") and "=" not in w]
        runs = [g for g in goals if g.endswith(".run")]
        if not goals:
            runs = ["default_cheb.run" if "use_cheb=true" in words else "default_fd.run"]
        d = ch.park("make", " ".join(words))
        base = cwd or os.getcwd()
        if not os.path.exists(os.path.join(base, "Makefile")):
            return 2
        for g in goals:
            if not g.endswith(".run") and g not in ("all", "clean", "clean_Source", "clean_Bin", "clean_Output"):
                return 2                # no rule to make it
            if g == "clean_Bin":
                for f in os.listdir("Bin"):
                    if f.endswith(".run"):
                        os.unlink("Bin/" + f)
        for r in runs:
            p = os.path.join(base, "Bin", r)
            if d["d"] in ("fail", "raise"):
                return 2
            if d["d"] == "lose":
                if os.path.exists(p):
                    s, ch.active = ch.active, False
                    os.unlink(p)
                    ch.active = s
                return 2
            ver = ch_version(r)
            b = executable(r, ver)
            s, ch.active = ch.active, False
            with REAL_OPEN(p, "wb") as f:
                f.write(b[:len(b) // 2])
                f.flush()
                ch.active = s
                d = ch.park("make2", r)
                ch.active = False
                if d["d"] in ("fail", "lose"):
                    ch.active = s
                    return 2
                f.write(b[len(b) // 2:])
            os.chmod(p, 0o755)
            ch.active = s
            ch.ask({"t": "built", "n": r, "v": ver})
        return 2 if d["d"] in ("fail", "lose") else 0

    def ch_version(r):
        ch.active = False
        try:
            return ch.ask({"t": "version", "n": r})["v"]
        finally:
            ch.active = True
    subprocess.Popen = SimPopen

    def sim_system(cmd):
        p = SimPopen(cmd, shell=True)
        rc = p.wait()
        return rc << 8 if rc >= 0 else -rc
    os.system = sim_system

    # --- clock and entropy
    R = {k: getattr(time, k) for k in ("localtime", "gmtime", "asctime", "ctime", "strftime")}
    now = ch.clock
    time.time = now
    time.time_ns = lambda: int(now() * 1e9)
    time.monotonic = time.perf_counter = now
    time.monotonic_ns = time.perf_counter_ns = time.time_ns
    time.localtime = lambda s=None: R["localtime"](now() if s is None else s)
    time.gmtime = lambda s=None: R["gmtime"](now() if s is None else s)
    time.asctime = lambda t=None: R["asctime"](time.localtime() if t is None else t)
    time.ctime = lambda s=None: R["ctime"](now() if s is None else s)
    time.strftime = lambda f, t=None: R["strftime"](f, time.localtime() if t is None else t)
    time.sleep = lambda s: ch.ask({"t": "sleep", "s": s})
    RD, RDate = datetime.datetime, datetime.date

    class SimDateTime(RD):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(now(), tz)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(now())

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(now(), datetime.timezone.utc).replace(tzinfo=None)

    class SimDate(RDate):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(now())
    datetime.datetime, datetime.date = SimDateTime, SimDate
    ent = random.Random("%s/%d" % (ch.spec["eseed"], ch.idx))
    rnd = lambda n: bytes(ent.getrandbits(8) for _ in range(n))
    os.urandom = rnd
    random._urandom = rnd
    twin = ch.spec.get("twin", 0)       # small random numbers and process numbers of different hosts may agree
    random.seed(1 if twin & 1 else ent.getrandbits(64))
    os.getpid = lambda: 4000 + (0 if twin & 2 else ch.idx)

    class SimRandom(random.Random):
        def __init__(self, x=None):
            random.Random.__init__(self, (random.getrandbits(64) if x is None else x))
    tempfile._Random = SimRandom


def snapshot(ch):
    s = ch.simobj
    return {k: (v if isinstance(v, (int, float, str, bool)) or v is None else str(v)) for k, v in vars(s).items()}


def child_main(sock, idx, spec):
    ch = Child(sock, idx, spec)
    null = os.open("/dev/null", os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    os.chdir(HOME)
    os.environ.clear()
    os.environ.update({"PATH": TOOLS + ":/usr/local/bin:/usr/bin:/bin", "HOME": HOME, "TZ": "UTC", "LC_ALL": "C.UTF-8"})
    os.environ.update(spec.get("env", {}))
    time.tzset()
    sys.path.insert(0, HOME)
    res = []
    try:
        import sim_class
        seams(ch)
        ch.ask({"t": "up"})
        for j, conf in enumerate(spec["sims"]):
            ch.ask({"t": "begin", "j": j})
            if j == 0 or not spec.get("reuse"):
                s = sim_class.Sim()
            ch.simobj = s
            for k, v in conf.items():
                setattr(s, k, v.replace("@CL@", CL) if isinstance(v, str) else v)
            ch.active = True
            ch.park("begin")
            s.launch_run()
            for p in list(ch.waiting):
                ch.background(p)
            ch.active = False
            ch.ask({"t": "done", "j": j, "ok": 1, "v": snapshot(ch)})
    except BaseException as e:
        ch.active = True
        for p in list(ch.waiting):
            ch.background(p)
        ch.active = False
        ch.ask({"t": "done", "ok": 0, "x": type(e).__name__, "m": short(str(e))[:200]})
    ch.ask({"t": "end"})
    os._exit(0)


# ------------------------------------------------------------------ the simulator
def tree(top):
    """path -> state of everything below top."""
    out = {}
    stack = [top]
    while stack:
        d = stack.pop()
        try:
            it = sorted(os.scandir(d), key=lambda e: e.name)
        except OSError:
            continue
        for e in it:
            st = e.stat(follow_symlinks=False)
            if e.is_dir(follow_symlinks=False):
                out[e.path] = ("d", stat.S_IMODE(st.st_mode))
                stack.append(e.path)
            elif e.is_symlink():
                out[e.path] = ("l", os.readlink(e.path))
            else:
                with REAL_OPEN(e.path, "rb") as f:
                    out[e.path] = ("f", stat.S_IMODE(st.st_mode), st.st_size, hashlib.blake2b(f.read(), digest_size=12).hexdigest())
    return out


class World:
    def __init__(self, case):
        self.case = case
        self.rng = random.Random(case["seed"])
        self.viol, self.trace, self.sched = [], [], []
        self.counts = {}
        self.now = self.t0 = float(case.get("t0", 1700000000))
        self.far = 0.0
        self.owner = {}
        self.starts = {}       # launch -> list of records
        self.jobs = []
        self.ended = {}
        self.vars = {}
        self.versions = {}
        self.created = {}      # launch -> run dirs it created
        self.kids = []
        self.fault_seen = {}
        self.steps = 0
        self.pending_build = {}

    def n(self, k, d=1):
        self.counts[k] = self.counts.get(k, 0) + d

    def bad(self, prop, key, text):
        self.viol.append([prop, key, short(text)])

    # -- setting up
    def setup(self):
        shutil.rmtree(ROOT, ignore_errors=True)
        for d in (HOME, HOME + "/Bin", HOME + "/Output", CL, REC, TOOLS):
            os.makedirs(d)
        for f in os.listdir(REPO):
            if f.endswith(".py") or f == "Makefile":
                shutil.copyfile(os.path.join(REPO, f), os.path.join(HOME, f))
        for n, t in (("sbatch", SBATCH), ("time", TIME)):
            with open(os.path.join(TOOLS, n), "w") as f:
                f.write(t.replace("@REC@", REC))
            os.chmod(os.path.join(TOOLS, n), 0o755)
        for r in self.case.get("bins", ["default_cheb.run", "default_fd.run"]):
            with open(os.path.join(HOME, "Bin", r), "wb") as f:
                f.write(executable(r, 0))
            self.versions[r] = 0
        with open(os.path.join(ROOT, "solver.rc"), "w") as f:
            f.write("".join("%d\n" % x for x in self.case.get("solver_rc", [])))
        for p in self.case.get("pre", []):
            p = p.replace("@CL@", CL).replace("@HOME@", HOME)
            os.makedirs(p)
            with open(p + "/phi.csv", "w") as f:
                f.write("results of an earlier run\n")
            with open(p + "/params.txt", "w") as f:
                f.write("nx 7\n")
            self.owner[p] = "earlier run"

    def roots(self):
        r = [HOME + "/Output"]
        for l in self.case["launches"]:
            for c in l["sims"]:
                if c.get("computer") != "home":
                    r.append(os.path.normpath(c["out_stem"].replace("@CL@", CL)))
        return sorted(set(r))

    def run_dir(self, path):
        """The run directory that path is or lies in."""
        best = None
        for r in self.rootlist:
            if path.startswith(r + "/"):
                d = r + "/" + path[len(r) + 1:].split("/")[0]
                if any(x == d or x.startswith(d + "/") for x in self.rootlist):
                    continue
                if best is None or len(d) > len(best):
                    best = d
        return best

    def account(self, who):
        """Attribute every change since the last step to the launch that made this step."""
        cur = tree(HOME + "/Output")
        cur.update(tree(CL))
        for p in sorted(set(cur) | set(self.last)):
            if cur.get(p) == self.last.get(p):
                continue
            d = self.run_dir(p)
            if d is None:
                continue
            if d == p and p not in self.last:
                self.owner[p] = who
                self.created.setdefault(who, []).append(p)
                continue
            if self.owner.get(d) != who:
                what = "created" if p not in self.last else "deleted" if p not in cur else "changed"
                self.bad("C13", "foreign change", "launch %s %s %s, which belongs to %s" % (who, what, p, self.owner.get(d, "nobody")))
            if d == p and p not in cur:
                self.owner.pop(p, None)
        self.last = cur

    def records(self, who):
        """Solver starts and job submissions of this step."""
        names = sorted(f for f in os.listdir(REC) if f.endswith(".txt"))
        for f in names:
            p = os.path.join(REC, f[:-4])
            r = {}
            for line in REAL_OPEN(p + ".txt").read().splitlines():
                k, _, v = line.partition("=")
                r[k] = v
            for x in ("bin", "par", "job", "env"):
                if os.path.exists(p + "." + x):
                    r[x] = REAL_OPEN(p + "." + x, "rb").read()
            if f.startswith("s."):
                self.solver_started(who, r)
            else:
                self.n("submissions")
                self.jobs.append({"who": who, "cwd": r["cwd"], "script": r.get("job", b""), "env": r.get("env", b""), "path": os.path.join(r["cwd"], r.get("script", ""))})
                self.trace.append("%s submitted" % who)
        for f in os.listdir(REC):
            os.unlink(os.path.join(REC, f))

    def solver_started(self, who, r):
        self.n("solver_starts")
        l, j = who.split(".")
        conf = self.case["launches"][int(l)]["sims"][int(j)]
        first = not self.starts.get(who)
        self.starts.setdefault(who, []).append({"cwd": short(r["cwd"])})
        self.trace.append("%s started the solver in %s" % (who, short(r["cwd"])))
        out = os.path.normpath(os.path.join(r["cwd"], r["arg2"]))
        d = self.run_dir(out)
        if d is None or d != out or self.owner.get(d) != who:
            self.bad("C13", "foreign directory", "launch %s started a solver that writes into %s, which %s" % (
                who, out, "belongs to " + self.owner[d] if d in self.owner else "no launch created"))
        if not first:
            self.bad("C14", "started twice", "launch %s started the solver %d times" % (who, len(self.starts[who])))
        if r["argc"] != "2":
            self.bad("C14", "arguments", "the solver was started with %s arguments" % r["argc"])
        # its inputs, as they were at that moment
        own = os.path.dirname(os.path.normpath(os.path.join(r["cwd"], r["arg1"])))
        if "par" not in r:
            self.bad("C14", "parameter file missing", "launch %s started the solver without a parameter file" % who)
        else:
            self.params(who, conf, r["par"])
            if own != out:
                self.bad("C14", "parameter file elsewhere", "launch %s started the solver on the parameter file %s" % (who, r["arg1"]))
        name = conf["bin_name"]
        ver = self.expect.get(who, self.versions.get(name))
        want = executable(name, ver) if ver is not None else b""
        if conf.get("recompile") and self.built.get(who) != name:
            self.bad("C14", "not recompiled", "launch %s started the solver although its compilation did not succeed" % who)
        if r.get("bin", b"") != want:
            self.bad("C14", "executable incomplete", "launch %s started an executable of %d bytes that is not the requested %s (%d bytes)" % (who, len(r.get("bin", b"")), name, len(want)))
        if os.path.dirname(os.path.normpath(os.path.join(r["cwd"], r["zero"]))) != out:
            self.bad("C14", "executable elsewhere", "launch %s started the executable %s, not a copy in the run directory" % (who, r["zero"]))
        if r["threads"] != str(conf["num_threads"]) or r["levels"] != str(conf["num_omp_levels"]):
            self.bad("C14", "thread settings", "launch %s: OMP_NUM_THREADS=%r, OMP_MAX_ACTIVE_LEVELS=%r instead of %s, %s" % (who, r["threads"], r["levels"], conf["num_threads"], conf["num_omp_levels"]))

    def params(self, who, conf, text):
        got = {}
        text = text.decode("utf-8", "replace")
        for line in text.splitlines():
            w = line.split()
            if not w:
                continue
            if w[0] in got and got[w[0]] != w[1:]:
                self.bad("C14", "parameter given twice", "%s is %s and %s" % (w[0], got[w[0]], w[1:]))
            got.setdefault(w[0], w[1:])
        if text and not text.endswith("\n"):
            self.bad("C14", "parameter file incomplete", "launch %s: the parameter file ends in the middle of a line: %r" % (who, text[-40:]))
        want = {k: v for k, v in conf.items() if k != "output_dir"}
        h = conf["black_hole_mass"] + math.sqrt((conf["black_hole_mass"] - conf["black_hole_spin"]) * (conf["black_hole_mass"] + conf["black_hole_spin"]))
        L = conf["compactification_length"]
        want.update(horizon=h, Rmin=h / (1.0 + h / L), Rmax=L, rl=h * conf["rl_0"], ru=h * conf["ru_0"])
        for k, v in self.vars.get(who, {}).items():
            if k in ("dt", "nt", "t_step_save"):
                want[k] = v
        for k in ("dt", "nt", "t_step_save"):
            if k not in want:
                want[k] = None
        for k, v in want.items():
            if k not in got:
                self.bad("C14", "parameter missing", "launch %s: the parameter file the solver was started with does not hold %s" % (who, k))
                return
            g = got[k]
            if v is None:
                continue
            if isinstance(v, bool) or isinstance(v, str):
                ok = " ".join(g) == " ".join(str(v).replace("@CL@", CL).split())
            elif isinstance(v, list):
                ok = g == [str(x) for x in v]
            else:
                try:
                    x = float(g[0])
                    ok = len(g) == 1 and (x == v or (k in ("horizon", "Rmin", "rl", "ru") and abs(x - v) <= 1e-13 * max(1.0, abs(v))))
                except (ValueError, IndexError):
                    ok = False
            if not ok:
                self.bad("C14", "parameter wrong", "launch %s: the solver was started with %s %s instead of %r" % (who, k, " ".join(g), v))
        try:
            dt, nt, every = float(got["dt"][0]), float(got["nt"][0]), float(got["t_step_save"][0])
            T = conf["evolve_time"] * conf["black_hole_mass"]
            if not (dt > 0 and abs(nt * dt - T) <= 1.001 * dt + 1e-12 * T and every >= 1 and (every == 1 or every == int(nt / float(conf["num_saved_times"])))):
                self.bad("C14", "parameter wrong", "launch %s: nt=%g, dt=%g, t_step_save=%g do not give evolve_time=%g and num_saved_times=%s" % (who, nt, dt, every, T, conf["num_saved_times"]))
        except (ValueError, IndexError, KeyError):
            pass
        self.partexts.append([who, short(text)])

    # -- time
    def tick(self):
        p = self.case.get("clock", "tick")
        r = self.rng.random()
        if p == "frozen":
            pass
        elif p == "tick":
            self.now += self.rng.choice([0.001, 0.3, 0.9, 1.7])
        elif p == "jump":
            if r < 0.3:
                self.now += self.rng.choice([-3600, -86400, 3600, 86400 * 40, -1, 1])
        elif p == "back":
            self.now -= self.rng.choice([0.4, 1.0, 2.0])
        self.n("clock_reads")
        self.far = max(self.far, abs(self.now - self.t0))
        return self.now

    # -- running
    def fork(self, i, spec):
        a, b = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                for k in self.kids:
                    if k["alive"]:
                        k["sock"].close()
                signal.alarm(100)
                child_main(b, i, spec)
            finally:
                os._exit(99)
        b.close()
        return {"pid": pid, "sock": a, "i": i, "j": 0, "alive": True, "ev": None, "n": 0}

    def reply(self, k, msg):
        b = json.dumps(msg).encode()
        k["sock"].sendall(struct.pack("<I", len(b)) + b)

    def advance(self, k):
        """Let k run until it parks or ends."""
        who = lambda: "%d.%d" % (k["i"], k["j"])
        while True:
            try:
                m = json.loads(recv(k["sock"]))
            except EOFError:
                self.dead(k)
                return
            t = m["t"]
            if t == "ev":
                k["ev"] = m
                return
            if t == "clock":
                v = self.tick()
                self.trace.append("%s clock %r" % (who(), v))
                self.reply(k, {"now": v})
            elif t == "sleep":
                self.now += min(float(m["s"]), 1e6)
                self.reply(k, {})
            elif t == "begin":
                k["j"] = m["j"]
                self.expect[who()] = self.versions.get(self.case["launches"][k["i"]]["sims"][k["j"]]["bin_name"])
                self.reply(k, {})
            elif t == "took":
                v = self.case.get("run_time", 0) if any(f.startswith("s.") for f in os.listdir(REC)) else 0
                self.now += v
                self.reply(k, {"s": v})
            elif t == "vars":
                self.vars[who()] = m["v"]
                self.reply(k, {})
            elif t == "version":
                v = self.case.get("newver", 0) + self.versions.get(m["n"], -1) + 1
                self.reply(k, {"v": v})
            elif t == "built":
                self.versions[m["n"]] = m["v"]
                self.built[who()] = m["n"]
                self.expect[who()] = m["v"]
                self.reply(k, {})
            elif t == "done":
                if "j" in m:
                    k["j"] = m["j"]
                self.ended[who()] = ["ok"] if m["ok"] else ["failed", m["x"], m["m"]]
                self.trace.append("%s %s" % (who(), self.ended[who()]))
                self.reply(k, {})
            else:
                self.reply(k, {})

    def dead(self, k):
        if not k["alive"]:
            return
        k["alive"] = False
        k["sock"].close()
        _, st = os.waitpid(k["pid"], 0)
        if st == 99 << 8 or (os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM):
            raise RuntimeError("launch process ended unexpectedly (status %d)" % st)
        w = "%d.%d" % (k["i"], k["j"])
        if os.WIFSIGNALED(st):
            self.ended.setdefault(w, ["killed"])

    def step(self, k):
        who = "%d.%d" % (k["i"], k["j"])
        ev = k["ev"]
        k["ev"] = None
        k["n"] += 1
        d = {"d": "go"}
        for f in self.case.get("faults", []):
            if f["l"] == k["i"] and f["n"] == k["n"]:
                d = self.fault(ev, f)
        self.trace.append("%s %s %s%s" % (who, ev["k"], " ".join(ev["a"]), "" if d["d"] == "go" else " -> " + json.dumps(d, sort_keys=True)))
        self.n("steps")
        self.n("ev_" + ev["k"])
        if d["d"] != "go":
            self.n("f_" + d["d"] + "_" + ev["k"])
            self.faulted.add(who)
        if self.case.get("faults") is not None and d["d"] == "kill":
            self.ended.setdefault(who, ["killed"])
        self.reply(k, d)
        self.advance(k)
        self.account(who)
        self.records(who)

    def fault(self, ev, f):
        kind, e = f["k"], ev["k"]
        if kind == "kill":
            return {"d": "torn", "f": f["f"]} if e == "write" else {"d": "kill"}
        if e == "write":
            if kind == "short":
                return {"d": "short", "f": f["f"]}
            return {"d": "torn", "f": f["f"], "e": f["e"]}
        if e == "begin":
            return {"d": "go"}
        if e in ("make", "make2"):
            return {"d": ["fail", "lose"][f["f"] > 0.5]}
        if e == "exec":
            if kind == "short":
                return {"d": "go"}
            if f["f"] < 0.3:
                return {"d": "raise", "e": "EAGAIN"}
            return {"d": "fail"} if f["f"] < 0.7 or not ev["a"][0].startswith("sbatch") else {"d": "lost"}
        return {"d": "raise", "e": f["e"]} if kind != "short" else {"d": "go"}

    def run_job(self, job):
        """The batch system starts a submitted job."""
        who = job["who"]
        conf = self.case["launches"][int(who.split(".")[0])]["sims"][int(who.split(".")[1])]
        opts = {}
        for line in job["script"].decode("utf-8", "replace").splitlines():
            if line.startswith("#SBATCH"):
                m = re.match(r"#SBATCH\s+--?([\w-]+)[=\s]\s*([^\s#]*)", line)
                if m:
                    opts[m.group(1)] = m.group(2)
            elif line.strip() and not line.startswith("#"):
                break
        env = {"PATH": TOOLS + ":/usr/local/bin:/usr/bin:/bin", "HOME": HOME, "LC_ALL": "C.UTF-8"}
        for line in job["env"].decode("utf-8", "replace").splitlines():      # sbatch hands the environment of the submitter on
            k, _, v = line.partition("=")
            if k.startswith("OMP_"):
                env[k] = v
        if "cpus-per-task" in opts:
            env["SLURM_CPUS_PER_TASK"] = opts["cpus-per-task"]
        before = len(self.starts.get(who, []))
        sp = os.path.join(ROOT, "jobscript")
        with open(sp, "wb") as f:
            f.write(job["script"])
        subprocess.run(["/bin/sh", sp], cwd=job["cwd"] if os.path.isdir(job["cwd"]) else "/", env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.trace.append("%s job" % who)
        self.n("jobs")
        self.account(who)
        self.records(who)
        if len(self.starts.get(who, [])) == before:
            self.bad("C14", "batch script incomplete", "launch %s submitted a batch script that does not start the solver: %r" % (who, job["script"][-120:]))

    def go(self):
        case = self.case
        self.setup()
        self.rootlist = self.roots()
        self.built, self.expect, self.partexts, self.faulted = {}, {}, [], set()
        self.last = tree(HOME + "/Output")
        self.last.update(tree(CL))
        todo = list(range(len(case["launches"])))
        late = case.get("late", [])
        explicit = list(case.get("schedule", []))
        use_explicit = "schedule" in case
        cur = None
        try:
            for i in todo:
                if i not in late:
                    self.start(i)
            pend = [i for i in todo if i in late]
            while True:
                ready = [k["i"] for k in self.kids if k["alive"]]
                acts = ready + (["job"] if self.jobs else [])
                if pend and not ready and (not acts or case.get("queue")):     # submitted jobs may wait for longer
                    self.start(pend.pop(0))
                    continue
                if not acts:
                    break
                if use_explicit:
                    a = None
                    while explicit and a is None:
                        c = explicit.pop(0)
                        a = c if c in acts else None
                    if a is None:
                        a = cur if cur in acts else acts[0]
                else:
                    pol = case.get("policy", "rand")
                    if pol == "rand" or cur not in acts:
                        a = self.rng.choice(acts)
                    elif pol == "serial":
                        a = cur
                    else:
                        a = cur if self.rng.random() < 0.85 else self.rng.choice(acts)
                if cur is not None and a != cur:
                    self.n("switches")
                cur = a
                self.sched.append(a)
                self.steps += 1
                if self.steps > 3000:
                    self.bad("C14", "no end", "no end after 3000 steps")
                    break
                if a == "job":
                    self.run_job(self.jobs.pop(self.rng.randrange(len(self.jobs)) if not use_explicit else 0))
                else:
                    self.step([k for k in self.kids if k["i"] == a][0])
            self.finish()
        finally:
            for k in self.kids:
                if k["alive"]:
                    os.kill(k["pid"], signal.SIGKILL)
                    os.waitpid(k["pid"], 0)
                    k["sock"].close()
        sw = [str(x) for i, x in enumerate(self.sched) if i == 0 or x != self.sched[i - 1]]
        return {"simtime": self.far, "viol": self.viol, "trace": self.trace, "counts": self.counts, "ended": self.ended, "sched": self.sched,
                "params": self.partexts, "vars": self.vars, "order": hashlib.blake2b(json.dumps(self.sched).encode(), digest_size=8).hexdigest(),
                "switches": len(sw), "starts": self.starts, "created": {k: [short(x) for x in v] for k, v in self.created.items()}}

    def start(self, i):
        k = self.fork(i, self.case["launches"][i])
        self.kids.append(k)
        self.advance(k)
        self.account("%d.0" % i)
        self.records("%d.0" % i)

    def finish(self):
        for who, e in sorted(self.ended.items()):
            n = len(self.starts.get(who, []))
            if e[0] == "ok" and n == 0 and who not in self.faulted:
                self.bad("C14", "nothing started", "launch %s ended without an error and without starting a solver" % who)
            if e[0] == "ok" and not self.created.get(who) and who not in self.faulted:
                self.bad("C13", "existing directory", "launch %s created no run directory of its own and did not fail" % who)
            if e[0] == "failed" and who not in self.faulted and e[1] != "FileExistsError" and self.case.get("must_work"):
                self.bad("C14", "launch failed", "launch %s failed without a reason: %s" % (who, e[1:]))


def main():
    for line in sys.stdin:
        try:
            w = World(json.loads(line))
            r = w.go()
        except Exception as e:
            import traceback
            r = {"error": "".join(traceback.format_exc())[-3000:]}
        shutil.rmtree(ROOT, ignore_errors=True)
        sys.stdout.write(json.dumps(r) + "\n")
        sys.stdout.flush()


main()
