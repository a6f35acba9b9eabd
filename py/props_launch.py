"""Properties of the run launcher (C13, C14): py/launch_server.py simulates the processes."""
import hashlib, json, os, subprocess, sys, threading
from core import Prop, Outcome
import build as B
import cases, sim as S

TIMES = [1700000000, 1709164800, 1711846799, 1704067199]     # plain, leap day, before a DST change, before a new year


class Server:
    def __init__(self, root):
        self.p = subprocess.Popen([sys.executable, "-I", os.path.join(B.VERIF, "py", "launch_server.py"), root, B.REPO],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    def run(self, case):
        try:
            self.p.stdin.write(json.dumps(case) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = ""
        if not line:
            raise S.HarnessError("launch server ended: " + self.p.stderr.read()[-2000:])
        r = json.loads(line)
        if "error" in r:
            raise S.HarnessError("launch server: " + r["error"])
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


class LCtx(S.Ctx):
    def __init__(self, build):
        super().__init__(build)
        self.servers = []

    def launch(self, case):
        tl = self._slot()
        if not getattr(tl, "srv", None):
            with self.lock:
                self.servers.append(None)
                k = len(self.servers) - 1
            tl.srv = Server(os.path.join(self.root, "L%06d" % k))
            self.servers[k] = tl.srv
        r = tl.srv.run(case)
        with self.lock:
            self.nruns += 1
            self.shashes.add(r["order"])
            self.stats["simtime"] = self.stats.get("simtime", 0.0) + r["simtime"]
            for k, v in r["counts"].items():
                self.stats[k] = self.stats.get(k, 0) + v
        return r

    def fresh(self):
        super().fresh()
        tl = self._slot()
        if getattr(tl, "srv", None):
            tl.srv.close()
            tl.srv = None

    def close(self):
        for s in self.servers:
            if s:
                s.close()
        super().close()


def conf(rng, home=None):
    """A run script's settings."""
    cheb = rng.random() < 0.5
    mass = rng.choice([1.0, 0.5, 1.25])
    num = lambda: rng.choice([0.0, 1.0, -0.5, 1e-3, round(rng.uniform(-2, 2), 6), rng.uniform(-1, 1), 1e-17, 100.0])
    c = {"output_dir": None, "recompile": False, "run_type": "basic_run", "black_hole_mass": mass,
         "black_hole_spin": rng.choice([0.0, round(0.9999 * mass, 16), 0.7 * mass, mass, rng.uniform(-1, 1) * mass]),
         "compactification_length": rng.choice([1.0, 20.0, 10.5]), "evolve_time": rng.choice([600.0, 10.0, 3.5]),
         "num_saved_times": rng.choice([1200, 10, 1, 7, 100000]), "nx": rng.choice([33, 128, 8193]), "nl": rng.choice([4, 20]), "nm": rng.choice([2, 4, 18])}
    c["nlat"], c["nphi"] = c["nl"] + rng.randint(1, 20), rng.choice([8, 40, 44])
    c["use_cheb"] = cheb
    if cheb and c["nx"] > 1000:       # keeps the number of steps within the range of int
        c["nx"] = 257
    c["bin_name"] = "default_cheb.run" if cheb else "default_fd.run"
    if not cheb:
        c["cfl"] = rng.choice([0.75, 0.25])
    for k in ("km1", "k0", "k1", "k2", "V2", "V3", "V4", "amp"):
        c[k] = num()
    c.update(l_ang=rng.randint(0, 3), m_ang=rng.randint(0, 2), rl_0=rng.choice([-1.0, 1.1, rng.uniform(1, 2)]), ru_0=rng.choice([3.0, rng.uniform(2, 5)]),
             initial_data_type="compact_pulse", initial_data_direction=rng.choice(["outgoing", "ingoing", "time_symmetric"]))
    if home is None:
        home = rng.random() < 0.6
    c.update(computer="home" if home else rng.choice(["della", "cluster"]), out_stem=rng.choice(["@CL@/sf/fd", "@CL@", "@CL@/a"]),
             time_it=rng.random() < 0.4, num_omp_levels=rng.choice([1, 2, 3]), num_threads=rng.choice([1, 2, 4, 16]),
             walltime="24:00:00", memory=rng.choice(["8192", "512"]), email="user@example.org")
    if rng.random() < 0.3:
        c["note"] = [1, 2.5, "x"]
    return c


TEMPLATE = r"""
import json, sys, types
class Sim:
    def launch_run(self):
        print(json.dumps(vars(self)))
        sys.exit(0)
m = types.ModuleType("sim_class")
m.Sim = Sim
sys.modules["sim_class"] = m
text = open(sys.argv[1]).read()
exec(compile(text, "runscript", "exec"), {"__name__": "__main__"})
"""


def template():
    """The settings of the repository's own run script."""
    try:
        p = subprocess.run([sys.executable, "-I", "-c", TEMPLATE, os.path.join(B.REPO, "runscript_template.py")],
                           cwd="/", stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
        return json.loads(p.stdout.splitlines()[-1])
    except (OSError, ValueError, IndexError, subprocess.TimeoutExpired):
        return None


def fault(rng, l, hi, kill=0.35):
    r = rng.random()
    k = "kill" if r < kill else "short" if r < kill + 0.1 else "err"
    return {"l": l, "n": rng.randint(1, hi), "k": k, "f": round(rng.random(), 3), "e": rng.choice(["ENOSPC", "EIO", "EACCES", "EDQUOT", "ENOENT", "EMFILE"])}


class Launch(Prop):
    needs = []
    real = ["sim_class.py", "shell commands of the launcher (chmod, pipes, tee, the batch script)"]
    stubs = ["clock and entropy", "file writes and directory changes (real, behind a fault layer)", "make as seen by the launcher", "sbatch and the batch system", "the solver executable (records how it was started)"]
    time_unit = "seconds of the simulated clock"
    assumptions = ["no other program writes into Bin while a launch copies from it", "configurations whose number of time steps fits an int"]
    jobs = 8

    def context(self):
        self.build = B.Build(self.needs) if self.needs else None
        return LCtx(self.build)

    def execute(self, ctx, case):
        out = Outcome()
        r = ctx.launch(case)
        out.fp.append((hashlib.sha1(json.dumps([r["trace"], r["viol"]]).encode()).hexdigest(), len(r["trace"]), r["order"], r["switches"]))
        for p, k, t in r["viol"]:
            if p == self.id:
                out.bad(k, t)
            else:
                out.other.append(k + ": " + t)
        for e in r["ended"].values():
            out.tags.append("launch " + e[0] + (" (%s)" % e[1] if len(e) > 1 else ""))
        self.after(ctx, case, r, out)
        case_sched = r["sched"]
        out.sched = case_sched
        return out

    def after(self, ctx, case, r, out):
        pass

    def shrink(self, ctx, case, key):
        c = case
        for i in range(len(c.get("faults", []))):
            yield dict(c, faults=c["faults"][:i] + c["faults"][i + 1:])
        for i in range(len(c.get("pre", []))):
            yield dict(c, pre=c["pre"][:i] + c["pre"][i + 1:])
        if len(c["launches"]) > 1:
            for i in range(len(c["launches"])):
                keep = [j for j in range(len(c["launches"])) if j != i]
                d = dict(c, launches=[c["launches"][j] for j in keep],
                         faults=[dict(f, l=keep.index(f["l"])) for f in c.get("faults", []) if f["l"] in keep],
                         late=[keep.index(j) for j in c.get("late", []) if j in keep])
                if "schedule" in d:
                    d["schedule"] = [keep.index(a) if a != "job" else a for a in d["schedule"] if a == "job" or a in keep]
                yield d
        for i, l in enumerate(c["launches"]):
            if len(l["sims"]) > 1:
                for j in range(len(l["sims"])):
                    yield dict(c, launches=c["launches"][:i] + [dict(l, sims=l["sims"][:j] + l["sims"][j + 1:])] + c["launches"][i + 1:])
        for k in ("solver_rc", "run_time", "env", "queue"):
            if k in c:
                yield {x: y for x, y in c.items() if x != k}
        for k, v in (("clock", "frozen"), ("clock", "tick"), ("policy", "serial")):
            if c.get(k) != v and "schedule" not in c:
                yield dict(c, **{k: v})

    def minimise_schedule(self, ctx, case, key, test, ddmin, deadline):
        """Replace the seeded policy by the explicit list of steps and remove what is not needed."""
        sched = self.execute(ctx, case).sched
        best = dict(case, schedule=sched)
        if not test(best):
            return case
        red = ddmin(sched, lambda s: test(dict(case, schedule=s)), deadline)
        return dict(case, schedule=red)

    def nontrivial(self, case, out):
        return len(case["launches"]) + sum(len(l["sims"]) for l in case["launches"]) > 2 or bool(case.get("faults"))


class C13(Launch):
    id = "C13"
    quick, thorough = 5000, 60000
    rule = "several launches, or a fault during a launch; distinct configuration, fault list and step order"

    def gen(self, rng, i, tier):
        c = {"seed": rng.getrandbits(48), "t0": rng.choice(TIMES) + rng.random(), "clock": rng.choice(["frozen", "frozen", "tick", "jump", "back"]),
             "policy": rng.choice(["rand", "rand", "burst", "serial"])}
        base = conf(rng)
        n = rng.choice([1, 2, 2, 3, 4])
        twin = rng.choice([0, 0, 1, 2, 3])
        same = rng.random()
        names = ["/run_%s" % x for x in "abc"]
        launches = []
        for l in range(n):
            sims = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if same < 0.6:
                    s = dict(base)
                elif same < 0.8:       # differs in something that is not part of the directory's name
                    s = dict(base)
                    s.update({k: v for k, v in conf(rng).items() if k in ("V4", "amp", "l_ang", "num_threads")})
                else:
                    s = conf(rng)
                if rng.random() < (0.9 if same < 0.3 else 0.1):
                    s["output_dir"] = rng.choice(names)
                sims.append(s)
            launches.append({"sims": sims, "eseed": rng.getrandbits(32), "twin": twin})
            if len(sims) > 1 and rng.random() < 0.3:
                launches[-1]["reuse"] = 1
        c["launches"] = launches
        if rng.random() < 0.35:
            c["late"] = sorted(rng.sample(range(n), rng.randint(1, n)))
        pre = set()
        if rng.random() < 0.4:
            for l in launches:
                for s in l["sims"]:
                    if s["output_dir"] and rng.random() < 0.5:
                        root = "@HOME@/Output" if s["computer"] == "home" else s["out_stem"]
                        pre.add(root + s["output_dir"])
        c["pre"] = sorted(pre)
        if rng.random() < 0.5:
            c["faults"] = [fault(rng, rng.randrange(n), 30, kill=0.6) for _ in range(rng.choice([1, 1, 2, 3]))]
        return c


class C14(Launch):
    id = "C14"
    needs = [("api", "fd_n")]
    quick, thorough = 5000, 60000
    rule = "a launch with a fault, or launches that interleave; distinct configuration, fault list and step order"

    def gen(self, rng, i, tier):
        c = {"seed": rng.getrandbits(48), "t0": rng.choice(TIMES) + rng.random(), "clock": rng.choice(["tick", "tick", "frozen", "jump"]),
             "policy": rng.choice(["rand", "burst", "serial"])}
        n = rng.choice([1, 1, 1, 2, 2, 3])
        twin = rng.choice([0, 0, 1, 2, 3])
        recompile = n == 1 and rng.random() < 0.6 or rng.random() < 0.2
        launches = []
        for l in range(n):
            sims = []
            for j in range(rng.choice([1, 1, 2])):
                s = conf(rng)
                if rng.random() < 0.03 and self.template():
                    own = s
                    s = dict(self.template(), **{k: own[k] for k in ("computer", "out_stem", "output_dir", "num_threads")})
                    if rng.random() < 0.5:    # the user's edits
                        s.update({k: own[k] for k in ("amp", "V2", "black_hole_mass", "black_hole_spin", "l_ang", "m_ang", "evolve_time", "use_cheb", "bin_name", "cfl", "nx") if k in own})
                s["recompile"] = recompile
                if rng.random() < 0.6 or n > 1:
                    s["output_dir"] = "/run_%d_%d" % (l, j)
                sims.append(s)
            launches.append({"sims": sims, "eseed": rng.getrandbits(32), "twin": twin})
            if len(sims) > 1 and rng.random() < 0.5:
                launches[-1]["reuse"] = 1       # one Sim object, changed and launched again
            if rng.random() < 0.3:
                launches[-1]["env"] = {"OMP_NUM_THREADS": "99", "OMP_MAX_ACTIVE_LEVELS": "7"}
        c["launches"] = launches
        c["newver"] = rng.choice([0, 0, 5])
        c["queue"] = rng.random() < 0.5
        if recompile:
            c["late"] = list(range(n))      # one after the other
            if rng.random() < 0.2:
                c["bins"] = []              # nothing was built before
        else:
            c["late"] = sorted(rng.sample(range(n), rng.randint(0, n - 1)))
        if rng.random() < 0.9:
            c["faults"] = [fault(rng, rng.randrange(n), rng.choice([14, 20, 45])) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < 0.5:      # how the solver ends, run by run
            c["solver_rc"] = [rng.choice([0, 1, 1, 2, 126, 139, 255, -9, -11, -15]) for _ in range(rng.choice([1, 2, 6]))]
            c["run_time"] = rng.choice([0, 30, 10800, 400000])
        c["must_work"] = all(s["output_dir"] for l in launches for s in l["sims"]) and (recompile or "bins" not in c)
        return c

    _template = 0

    def template(self):
        if self._template == 0:
            self._template = template()
        return self._template

    def after(self, ctx, case, r, out):
        """The solver's own reader must get the configured values out of the file."""
        for who, text in r["params"][:2]:
            l, j = map(int, who.split("."))
            s = case["launches"][l]["sims"][j]
            if hash_pick(text) % 4:
                continue
            res = ctx.run("api", "fd_n", {"sc": "params", "planner": 0}, {"params.txt": text.encode()})
            out.fp.append(res.fingerprint())
            if res.r["status"] or not res.r["finished"]:
                out.bad("unreadable parameter file", "the solver does not read the parameter file of launch %s: %s" % (who, res.con[-200:].decode("latin1")))
                continue
            got = dict(x.split("=", 1) for x in res.r["data"].split("\n") if "=" in x)
            v = dict(r["vars"].get(who, {}))
            v.update({k: x for k, x in s.items() if k not in ("output_dir",)})
            for k, g in got.items():
                w = v.get(k)
                if w is None:
                    continue
                ok = g == w if isinstance(w, str) else float(g) == float(w)
                if not ok:
                    out.bad("parameter read differently", "launch %s: the solver reads %s=%s, the launcher has %r" % (who, k, g, w))


def hash_pick(text):
    return int(hashlib.sha1(text.encode()).hexdigest()[:8], 16)


PROPS = [C13, C14]
