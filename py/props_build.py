"""C16: histories of builds with the real config.py, Makefiles and make, and a recording compiler."""
import functools, hashlib, itertools, os, random, re, select, shutil, signal, socket, subprocess, sys, time
from core import Prop, Outcome
import build as B, sim as S
import cases

ALL = ["cheb_c", "cheb_n", "fd_c", "fd_n"]

EXES = ("default_cheb.run", "default_fd.run")
T0 = 1000000000


@functools.lru_cache(4096)
def fnv(data):
    h = 14695981039346656037
    for b in data:
        h = ((h ^ b) * 1099511628211) & 0xffffffffffffffff
    return h


def tree(pid):
    """The living processes below (and with) pid: {pid: (state, context switches, children)}."""
    seen, todo = {}, [pid]
    while todo:
        p = todo.pop()
        try:
            with open("/proc/%d/task/%d/children" % (p, p)) as f:
                kids = [int(x) for x in f.read().split()]
            with open("/proc/%d/status" % p) as f:
                t = f.read()
        except (OSError, ValueError):
            continue
        m = re.search(r"^State:\s+(\S)", t, re.M)
        seen[p] = (m.group(1) if m else "?", tuple(re.findall(r"ctxt_switches:\s+(\d+)", t)), tuple(kids))
        todo += kids
    return seen


class Turns:
    """Decides which of the compilers that are ready to run goes next; one runs at a time.

    A decision is made only when nothing else of the build can move: either the build is a single chain of processes
    that wait for the one compiler, or every process sleeps and stays asleep."""
    serial = itertools.count()

    def __init__(self, seed):
        self.name = "sfk-%d-%d" % (os.getpid(), next(self.serial))
        self.srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.srv.bind("\0" + self.name)
        self.srv.listen(64)
        self.seed, self.builds = seed, 0
        self.choices = 0
        self.parallel = False

    def quiet(self, pid, waiting):
        a = tree(pid)
        pids = {w[0] for w in waiting}
        live = {p: v for p, v in a.items() if v[0] != "Z"}
        if not all(v[0] == "S" for p, v in live.items() if p not in pids):
            return False
        if len(waiting) == 1 and waiting[0][0] in a and all(len([k for k in v[2] if k in live]) <= 1 for v in live.values()) and not live[waiting[0][0]][2] and not self.parallel:
            return True
        time.sleep(0.002)
        return tree(pid) == a

    def drive(self, proc, limit):
        end = time.time() + limit
        self.builds += 1
        rng = random.Random("%s/%d" % (self.seed, self.builds))
        pidfd = os.pidfd_open(proc.pid)
        running, waiting, greeting = None, [], []
        try:
            while True:
                if time.time() > end:
                    raise subprocess.TimeoutExpired(proc.args, limit)
                busy = running is not None or not waiting
                r, _, _ = select.select([pidfd, self.srv] + greeting + ([running] if running else []), [], [], 1.0 if busy else 0)
                if self.srv in r:
                    greeting.append(self.srv.accept()[0])
                for c in [c for c in r if c in greeting]:
                    greeting.remove(c)
                    m = c.recv(400).decode("latin1").split()
                    if len(m) == 3:
                        waiting.append((int(m[0]), m[1], m[2], c))
                    else:
                        c.close()
                if running in r:
                    running.close()
                    running = None
                if pidfd in r:
                    return
                if r or running is not None or not waiting or greeting:
                    continue
                if not self.quiet(proc.pid, waiting):
                    time.sleep(0.0005)
                    continue
                if select.select([pidfd, self.srv], [], [], 0)[0]:
                    continue
                waiting.sort(key=lambda w: (w[2], w[1]))
                k = 0
                if len(waiting) > 1:
                    self.parallel = True
                    k = rng.randrange(len(waiting))
                    self.choices += 1
                w = waiting.pop(k)
                running = w[3]
                try:
                    running.send(b"g")
                except OSError:
                    running.close()
                    running = None
        finally:
            os.close(pidfd)
            try:                      # whatever the build left running ends here
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
            proc.wait()
            for c in greeting + [w[3] for w in waiting] + ([running] if running else []):
                c.close()

    def close(self):
        self.srv.close()


class World:
    """One source tree and the operations on it."""

    def __init__(self, root, gxx, seed=0):
        self.turns = Turns(seed)
        self.root, self.top, self.ctl = root, root + "/repo", root + "/ctl"
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(self.ctl)
        os.makedirs(self.top + "/Output")
        os.makedirs(self.top + "/Bin")
        os.makedirs(root + "/tools")
        for n in ("g++", "c++", "gcc", "cc", "clang++"):
            os.symlink(gxx, root + "/tools/" + n)
        for rel in ("", "Source", "Bin", "Output"):
            src = os.path.join(B.REPO, rel)
            if not os.path.isdir(src):
                continue
            os.makedirs(os.path.join(self.top, rel), exist_ok=True)
            for f in sorted(os.listdir(src)):
                p = os.path.join(src, f)
                if os.path.isfile(p) and not f.endswith((".o", ".run", ".md", ".pyc")) and (f in ("Makefile", ".gitignore") or f.endswith((".py", ".cpp", ".hpp", ".h", ".mk", ".sh"))):
                    shutil.copy(p, os.path.join(self.top, rel, f))
        self.clock = T0
        self.original = {}
        for d, _, fs in os.walk(self.top):
            for f in fs:
                os.utime(os.path.join(d, f), (T0, T0))
        self.src = self.top + "/Source"
        for f in sorted(os.listdir(self.src)):
            if f.endswith((".cpp", ".hpp")):
                self.original[f] = open(os.path.join(self.src, f), "rb").read()
        self.text = dict(self.original)
        self.version = 0
        self.stamp()
        self.macro = b"USE_CHEB" in b"".join(self.original.values())

    def stamp(self, since=None):
        with open(self.ctl + "/clock", "w") as f:
            f.write("%d\n" % self.clock)

    def normalise(self, t):
        """Files that the build wrote itself get a simulated time stamp too."""
        for d, _, fs in os.walk(self.top):
            for f in fs:
                p = os.path.join(d, f)
                try:
                    if os.lstat(p).st_mtime > T0 + 5e8:
                        os.utime(p, (t, t))
                except OSError:
                    pass

    def run(self, cmd, plan, cwd):
        t = self.clock + 1
        self.clock += 2
        self.stamp()
        with open(self.ctl + "/plan", "w") as f:
            f.writelines("%d %s\n" % tuple(x) for x in plan)
        for n in ("count", "log"):
            open(self.ctl + "/" + n, "w").close()
        env = {"PATH": self.root + "/tools:/usr/local/bin:/usr/bin:/bin", "HOME": self.root, "LC_ALL": "C", "SFK_GXX": self.ctl, "SFK_SOCK": self.turns.name, "PYTHONDONTWRITEBYTECODE": "1"}
        with open(self.ctl + "/out", "wb") as o:
            p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=o, stderr=subprocess.STDOUT, start_new_session=True)
            self.turns.drive(p, 100)
        self.clock = int(open(self.ctl + "/clock").read()) + 1
        self.normalise(t)
        log = open(self.ctl + "/log").read().splitlines()
        return p.returncode, open(self.ctl + "/out", encoding="latin1").read().replace(self.root, "@"), log

    def hash(self, f):
        seen, h = set(), [14695981039346656037]

        def inc(path):
            if path in seen:
                return
            b = self.text[path]
            seen.add(path)
            h[0] = ((h[0] ^ fnv(b)) * 1099511628211) & 0xffffffffffffffff
            for m in re.finditer(rb'^[ \t]*#[ \t]*include[ \t]*"([^"\n]*)"', b, re.M):
                inc(m.group(1).decode())
        inc(f)
        return "%016x" % h[0]

    def content(self, exe):
        p = os.path.join(self.top, "Bin", exe)
        if not os.path.exists(p):
            return None
        return [l.split(" ", 3)[1:] for l in open(p).read().splitlines() if l.startswith("OBJ ")], open(p).read().endswith("END\n")

    def judge(self, exe):
        """What is wrong with this executable, after the operation that built it succeeded?"""
        c = self.content(exe)
        if c is None:
            return "missing executable", "%s does not exist" % exe
        objs, whole = c
        if not whole or not objs:
            return "incomplete executable", "%s is incomplete" % exe
        lay = set()
        names = [o[0] for o in objs]
        if "main.cpp" not in names or len(names) < 3:
            return "incomplete executable", "%s has no main program or too few parts: %s" % (exe, names)
        hs = {}
        for o in objs:
            f, h = o[0], o[1]
            defs = o[2].split(",") if len(o) > 2 else []
            m = {d.split("=")[0] for d in defs}
            if self.macro and ("USE_CHEB" in m) != (exe == "default_cheb.run"):
                return "wrong method", "%s contains %s compiled %s Chebyshev derivatives" % (exe, f, "with" if "USE_CHEB" in m else "without")
            if f not in self.text:
                return "stale code", "%s contains %s, which is no longer a source" % (exe, f)
            if f not in hs:
                hs[f] = self.hash(f)
            if h != hs[f]:
                return "stale code", "%s contains %s compiled from other sources than the current ones" % (exe, f)
            lay.add("SHTNS_CONTIGUOUS_LONGITUDES" in m)
        if len(lay) > 1:
            return "mixed layout", "%s mixes code for contiguous longitudes with code for contiguous latitudes" % exe
        return None


class C16(Prop):
    id = "C16"
    needs = [("api", v) for v in ALL]
    quick, thorough = 2000, 25000
    ndet = 16
    rule = "at least two build operations, or one with a fault; distinct history"
    real = ["config.py", "Makefile, Source/Makefile, Bin/Makefile, Output/Makefile", "make", "sim_class.py (then_recompile)"]
    stubs = ["compiler and linker (record source versions and macros)", "file time stamps"]
    time_unit = "seconds of the simulated file times"
    assumptions = ["one build at a time", "a source edit gets a later time stamp than every earlier build product", "a truncated object or executable is rejected by the linker"]

    def context(self):
        self.build = B.Build(self.needs)
        ctx = S.Ctx(self.build)
        ctx.gxx = os.path.join(ctx.root, "gxx")
        B.sh(["gcc", "-O1", "-w", "-o", ctx.gxx, os.path.join(B.VERIF, "sim/build/fakegxx.c")], ctx.root)
        ctx.maxdefs = set()
        return ctx

    def gen(self, rng, i, tier):
        if i % 50 < 4:      # the sources, compiled with the macros the name stands for, and run
            v = ALL[i % 4]
            plan = {"sc": "method"}
            plan.update(cases.par(rng, rng.choice([0, 1]), v.startswith("cheb"), narrow=False))
            plan.update(planner=rng.randint(0, 7), wseed=rng.getrandbits(48), seed=rng.getrandbits(48), mkpar=1)
            plan.update(cases.sched(rng, 20000))
            return {"seed": rng.getrandbits(32), "variant": v, "plan": plan, "ops": []}
        srcs = [f for f in sorted(os.listdir(os.path.join(B.REPO, "Source"))) if f.endswith((".cpp", ".hpp")) and not f.startswith("unit_manager")]
        n = rng.choice([1, 2, 3, 4, 5, 6, 8] if tier == "quick" else [2, 4, 6, 8, 12, 16])
        ops = []
        for _ in range(n):
            r = rng.random()
            if r < 0.30:
                op = {"op": "config", "args": rng.choice([[], [], [], ["-d", "true"], ["-p", "true"], ["--debug", "false"]])}
            elif r < 0.52:
                var = []
                if rng.random() < 0.5:
                    var.append(rng.choice(["use_cheb=true", "use_cheb=true", "use_cheb=false", "use_cheb="]))
                if rng.random() < 0.5:
                    var.append("use_contiguous_longitudes=true")
                if rng.random() < 0.2:
                    var.append(rng.choice(["debug=true", "profile=true"]))
                goal = rng.choice([[], [], ["default_cheb.run"], ["default_fd.run"]])
                op = {"op": "make", "args": goal + var, "dir": rng.choice(["", "", "Source"])}
            elif r < 0.64:
                op = {"op": "recompile", "exe": rng.choice(EXES)}
            elif r < 0.86:
                op = {"op": "edit", "file": rng.choice(srcs), "how": rng.choice(["new", "new", "revert"])}
            elif r < 0.93:
                op = {"op": "clean", "args": [rng.choice(["clean", "clean_Source", "clean_Bin", "clean_Output"])]}
            else:
                op = {"op": "delete", "what": rng.choice(["Bin/default_cheb.run", "Bin/default_fd.run", "objects"])}
            if op["op"] in ("config", "make", "recompile") and rng.random() < 0.35:
                op["plan"] = [[rng.randint(1, 24 if op["op"] == "config" else 12), rng.choice(["fail", "fail", "part", "kill", "int"])]]
            ops.append(op)
        ops.append(rng.choice([{"op": "config", "args": []}, {"op": "config", "args": []}, {"op": "recompile", "exe": rng.choice(EXES)},
                               {"op": "make", "args": ["use_cheb=true"], "dir": ""}, {"op": "make", "args": [], "dir": ""}]))
        return {"seed": rng.getrandbits(32), "ops": ops}

    def execute(self, ctx, case):
        out = Outcome()
        if "plan" in case:
            r = out.add(ctx.run("api", case["variant"], case["plan"]))
            out.tags.append("method " + case["variant"])
            for v in r.r["viol"]:
                if v.split(":")[0] == "method":
                    out.bad("wrong method", v)
                else:
                    out.other.append(v)
            return out
        root = ctx.scratch()
        trace = []
        w = None
        try:
            w = World(root, ctx.gxx, case["seed"])
            edits = 0
            for n, op in enumerate(case["ops"]):
                k = op["op"]
                built, rc, text, log = [], None, "", []
                plan = op.get("plan", [])
                if k == "config":
                    rc, text, log = w.run([sys.executable, "config.py"] + op["args"], plan, w.top)
                    built = list(EXES)
                elif k == "make":
                    rc, text, log = w.run(["make"] + op["args"], plan, os.path.join(w.top, op["dir"]))
                    goals = [a for a in op["args"] if a.endswith(".run")]
                    built = goals or ["default_cheb.run" if "use_cheb=true" in op["args"] else "default_fd.run"]
                elif k == "clean":
                    rc, text, log = w.run(["make"] + op["args"], [], w.top)
                elif k == "recompile":
                    rc, text, log = w.run([sys.executable, "-c", "from sim_class import Sim\ns= Sim()\ns.bin_name= %r\ns.use_cheb= %r\ns.recompile= True\ns.computer= 'home'\ns.then_recompile()\n" % (op["exe"], op["exe"] == "default_cheb.run")], plan, w.top)
                    built = [op["exe"]]
                elif k == "edit":
                    f = op["file"]
                    if f not in w.text:
                        continue
                    edits += 1
                    w.clock += 5
                    w.text[f] = w.original[f] if op["how"] == "revert" else w.original[f] + b"// edit %d\n" % edits
                    with open(os.path.join(w.src, f), "wb") as fh:
                        fh.write(w.text[f])
                    os.utime(os.path.join(w.src, f), (w.clock, w.clock))
                    w.clock += 1
                elif k == "delete":
                    if op["what"] == "objects":
                        for f in sorted(os.listdir(w.src)):
                            if f.endswith(".o") and hash_bit(case["seed"], n, f):
                                os.unlink(os.path.join(w.src, f))
                    elif os.path.exists(os.path.join(w.top, op["what"])):
                        os.unlink(os.path.join(w.top, op["what"]))
                trace.append((k, rc == 0, tuple(log)))    # which signal or status an interrupted make ends with is a race
                for x in plan:
                    if x[0] <= len(log):
                        with ctx.lock:
                            ctx.stats["f_compiler_" + x[1]] = ctx.stats.get("f_compiler_" + x[1], 0) + 1
                out.tags.append("%s %s" % (k, "" if rc is None else "ok" if rc == 0 else "failed"))
                if rc == 0:
                    for exe in built:
                        v = w.judge(exe)
                        if v:
                            out.bad(v[0], "after operation %d (%s) succeeded: %s" % (n + 1, " ".join([k] + op.get("args", []) + [op.get("exe", "")]).strip(), v[1]))
                elif built and not plan and not any(c.get("plan") and any(p[1] in ("kill",) for p in c["plan"]) for c in case["ops"][:n]):
                    out.bad("build failed", "operation %d (%s) failed without a fault: %s" % (n + 1, k, text[-300:]))
                if out.viol:
                    break
            digest = hashlib.sha1(repr([trace, [(e, w.content(e)) for e in EXES]]).encode()).hexdigest()
            out.fp.append((digest, len(trace), sum(len(t[2]) for t in trace)))
            with ctx.lock:
                ctx.nruns += 1
                ctx.shashes.add(digest)
                ctx.stats["build_operations"] = ctx.stats.get("build_operations", 0) + len(trace)
                ctx.stats["build_schedule_choices"] = ctx.stats.get("build_schedule_choices", 0) + w.turns.choices
                ctx.stats["compiler_runs"] = ctx.stats.get("compiler_runs", 0) + sum(len(t[2]) for t in trace)
                ctx.stats["simtime"] = ctx.stats.get("simtime", 0.0) + (w.clock - T0)
        finally:
            if w:
                w.turns.close()
            shutil.rmtree(root, ignore_errors=True)
        return out

    def shrink(self, ctx, case, key):
        if "plan" in case:
            return
        ops = case["ops"]
        for i in range(len(ops)):
            if len(ops) > 1:
                yield dict(case, ops=ops[:i] + ops[i + 1:])
        for i, o in enumerate(ops):
            if o.get("plan"):
                yield dict(case, ops=ops[:i] + [{k: v for k, v in o.items() if k != "plan"}] + ops[i + 1:])
            if o.get("args"):
                for j in range(len(o["args"])):
                    yield dict(case, ops=ops[:i] + [dict(o, args=o["args"][:j] + o["args"][j + 1:])] + ops[i + 1:])

    def nontrivial(self, case, out):
        if "plan" in case:
            return False
        return sum(1 for o in case["ops"] if o["op"] in ("config", "make", "recompile")) > 1 or any("plan" in o for o in case["ops"])


def hash_bit(seed, n, f):
    return hashlib.sha1(("%s/%s/%s" % (seed, n, f)).encode()).digest()[0] & 1


PROPS = [C16]
