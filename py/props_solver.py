"""Properties decided by simulated runs of the solver without I/O faults: C01-C06, C11, C12, C15, C17."""
import re
from core import Prop, Outcome, tail, status
import cases, sim

ALL = ["cheb_c", "cheb_n", "fd_c", "fd_n"]
SCHED_KEYS = ["threads", "threads2", "levels", "pshort", "pol", "gap", "stall", "depth", "span", "sseed"]
ENV_KEYS = ["eseed", "poison", "poisonf", "apol", "quar", "stackfill"]
OFFSETS = ["-5.0", "-3.0", "-2.0", "-1.6", "-0.6", "1.0", "3.0", "12.0"]


def linear(p):
    return all(p[k] == "0.0" for k in ("km1", "k1", "k2", "V3", "V4")) and p["k0"] == "1.0"


def numbers(line):
    return re.findall(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|inf|nan)", line)


def console_equal(a, b, rel=2e-5):
    """Same words, same numbers to the precision the console prints (sums may be reordered)."""
    la, lb = a.decode("latin1").splitlines(), b.decode("latin1").splitlines()
    if len(la) != len(lb):
        return "%d console lines instead of %d" % (len(la), len(lb))
    for x, y in zip(la, lb):
        if x == y:
            continue
        nx, ny = numbers(x), numbers(y)
        if len(nx) != len(ny) or re.sub(r"[-+0-9.eEinfa]", "", x) != re.sub(r"[-+0-9.eEinfa]", "", y):
            return "console line %r instead of %r" % (x, y)
        for p, q in zip(nx, ny):
            try:
                p, q = float(p), float(q)
            except ValueError:
                continue
            if not (p == q or abs(p - q) <= rel * max(abs(p), abs(q)) or (p != p and q != q)):
                return "console line %r instead of %r" % (x, y)
    return None


class SimProp(Prop):
    """case = {kind, variant, plan}; one run of the driver."""
    simple = [("threads", [1, 2, 3]), ("levels", [1]), ("threads2", [1]), ("pshort", [None]), ("stall", [None]), ("nt", [2, 3]),
              ("steps", [1]), ("calls", [1, 2, 3]), ("callers", [2]), ("nx", [9, 10]), ("poison", [0]), ("poisonf", [0]), ("apol", [0]),
              ("quar", [0]), ("stackfill", [0]), ("planner", [0]), ("pol", ["serial"]), ("km1", ["0.0"]), ("k1", ["0.0"]), ("k2", ["0.0"]),
              ("V2", ["0.0"]), ("V3", ["0.0"]), ("V4", ["0.0"]), ("black_hole_spin", ["0.0"]), ("depth", [1])]

    def common(self, rng, size, variant, nt=None, nonlinear=None, narrow=None, tiny=False):
        plan = {}
        if not tiny and rng.random() < 0.04:
            size = 3
        p = cases.par(rng, size, variant.startswith("cheb"), nt=nt, nonlinear=nonlinear, narrow=narrow)
        plan.update(p)
        plan["planner"] = rng.randint(0, 7)
        plan["wseed"] = rng.getrandbits(48)
        plan["seed"] = rng.getrandbits(48)
        plan["mkpar"] = 1
        if plan["nl"] >= 18 or plan["nx"] > 150:
            plan["budget"], plan["wall"] = 3000000000, 300
        return plan

    def settle(self, case):
        """A run of many millions of events cannot switch threads at every few of them."""
        plan = case["plan"]
        if plan.get("wall") and plan.get("pol") in ("rand", "rr"):
            plan["gap"] = max(plan["gap"], 300)
        if plan.get("pol") in ("rand", "rr") and plan.get("sc") in ("main", "step"):
            steps = plan["steps"] if plan["sc"] == "step" else plan["nt"]     # about 1100 events per point and step, at most 10^7 switches
            plan["gap"] = max(plan["gap"], 1100 * plan["nx"] * plan["nlat"] * plan["nphi"] * steps // 10 ** 7)
        return case

    def pick_size(self, rng, tier):
        return rng.choice([0, 0, 1, 1, 1, 2]) if tier == "thorough" else rng.choice([0, 0, 0, 1, 1])

    def execute(self, ctx, case):
        out = Outcome()
        res = out.add(ctx.run(case["kind"], case["variant"], case["plan"]))
        out.tags += self.tagsof(case)
        self.sim_viol(out, res)
        return out

    def tagsof(self, case):
        return ["%s %s %s" % (case["variant"], case["plan"]["sc"], case["plan"].get("pol", "serial"))]

    def shrink(self, ctx, case, key):
        plan = case["plan"]
        for k, vals in self.simple:
            if k not in plan:
                continue
            for v in vals:
                if v == plan[k]:
                    break
                q = dict(plan)
                if v is None:
                    del q[k]
                else:
                    q[k] = v
                yield dict(case, plan=q)

    def minimise_schedule(self, ctx, case, key, test, ddmin, deadline):
        """Replace the seeded policy by the explicit list of switches and drop those not needed."""
        plan = case["plan"]
        if plan.get("pol", "serial") in ("serial", "list"):
            return case
        r = ctx.run(case["kind"], case["variant"], dict(plan, trace=1))
        sw = [s for s in r.r.get("sw", "").split(",") if s]
        if not sw or r.r["nsw"] > 60000:
            return case
        base = {k: v for k, v in plan.items() if k not in ("gap", "depth", "span", "stall")}
        mk = lambda s: dict(case, plan=dict(base, pol="list", sw=",".join(s)))
        if len(",".join(sw)) > 900000 or not test(mk(sw)):
            return case
        return mk(ddmin(sw, lambda s: test(mk(s)), deadline))


class C01(SimProp):
    id = "C01"
    needs = [(k, v) for k in ("main", "api") for v in ALL]
    quick, thorough = 1600, 20000
    kinds = ("no-progress", "deadlock", "timeout")
    rule = "whole program, or step-by-step evolution from random data, with more than one thread or a changed environment"
    assumptions = ["bitwise independence is judged for a fixed FFTW plan and a fixed SHTns", "console diagnostics are compared to printed precision: their sums may legally be reordered"]

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        plan = self.common(rng, self.pick_size(rng, tier), variant)
        kind = rng.choice(["main", "api"])
        if kind == "main":
            plan["sc"] = "main"
        else:
            plan.update(sc="step", steps=rng.randint(1, 3), data=rng.choice([0, 1, 2, 2, 3, 4]), damp=rng.choice(["0.05", "0.3", "0.3", "2.5", "1e3", "1e7", "1e-7"]), check=0, resync=0, hashes=1)
        if rng.random() < 0.015:     # a long history on a tiny grid
            plan.update(self.common(rng, 0, variant, nt=60, tiny=True))
            plan.update(nx=9, t_step_save=rng.choice([1, 7]), steps=60)
        v = rng.random()
        if v < 0.9:
            plan.update(cases.sched(rng))
        if v > 0.25:
            plan.update(cases.env(rng))
        return {"kind": kind, "variant": variant, "plan": plan}

    def execute(self, ctx, case):
        out = Outcome()
        plan = case["plan"]
        base = {k: v for k, v in plan.items() if k not in SCHED_KEYS + ENV_KEYS and k != "sw"}
        b = out.add(ctx.baseline(case["kind"], case["variant"], base))
        if self.sim_viol(out, b):
            return out
        r = out.add(ctx.run(case["kind"], case["variant"], plan))
        out.tags += self.tagsof(case)
        if self.sim_viol(out, r):
            return out
        if r.r["viol"] or b.r["viol"]:
            return out
        if case["kind"] == "api":
            x, y = b.r["data"].split(), r.r["data"].split()
            for s, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    out.bad("schedule dependence", "state after step %d differs from the single-threaded run" % (s + 1))
                    break
        for f in sorted(set(b.files) | set(r.files)):
            if b.files.get(f) != r.files.get(f):
                out.bad("schedule dependence", "file %s differs from the single-threaded run" % f)
                break
        else:
            e = console_equal(r.con, b.con)
            if e and case["kind"] == "main":
                out.bad("schedule dependence", "console differs from the single-threaded run: " + e)
        return out

    def nontrivial(self, case, out):
        return case["plan"].get("threads", 1) > 1 or "poison" in case["plan"]


class C02(SimProp):
    id = "C02"
    needs = [(k, v) for k in ("main", "api") for v in ALL]
    quick, thorough = 2000, 25000
    kinds = ("race", "deadlock", "no-progress", "timeout")
    rule = "at least one parallel region with two or more threads ran under the race detector"
    assumptions = ["happens-before over 8-byte cells with 4 remembered accesses; accesses inside FFTW and SHTns appear as whole-buffer accesses"]

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        size = rng.choice([0, 0, 0, 1]) if tier == "quick" else rng.choice([0, 0, 1, 2])
        plan = self.common(rng, size, variant, nt=rng.randint(2, 4))
        kind = "main" if rng.random() < 0.5 else "api"
        if kind == "main":
            plan["sc"] = "main"
        else:
            sc = rng.choice(["step", "diag", "ops"])
            plan["sc"] = sc
            if sc == "step":
                plan.update(steps=rng.randint(1, 2), data=rng.choice([0, 1, 2, 4]), damp="0.1", check=0, resync=0)
            else:
                plan.update(calls=rng.randint(2, 6))
        plan.update(cases.sched(rng))
        if plan["pol"] == "serial":
            plan["pol"], plan["gap"] = "rr", 500
        plan["race"] = 1
        return {"kind": kind, "variant": variant, "plan": plan}

    def execute(self, ctx, case):
        out = Outcome()
        res = out.add(ctx.run(case["kind"], case["variant"], case["plan"]))
        out.tags += self.tagsof(case)
        self.sim_viol(out, res, expect_ok=False)
        out.multi = res.r["team_threads"] > res.r["regions"]
        return out

    def nontrivial(self, case, out):
        return out.multi


class C03(SimProp):
    id = "C03"
    needs = [("api", v) for v in ALL]
    quick, thorough = 8000, 100000
    kinds = ("shared", "race", "deadlock", "no-progress", "timeout", "fftw", "shtns")
    rule = "two or more concurrent callers of one shared operator object"

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        plan = self.common(rng, rng.choice([0, 1, 2]), variant)
        plan.update(sc="shared", callers=rng.choice([2, 2, 3, 4, 6]), calls=rng.choice([1, 2, 3, 6, 10]))
        if rng.random() < 0.5:   # hammer a few operations
            m = 0
            for _ in range(rng.randint(1, 3)):
                m |= 1 << rng.randint(0, 18)
            if plan["nm"] < plan["nl"]:
                m |= 1 << 7
            plan["ops"] = m
        s = cases.sched(rng, 4000)
        for k in ("threads", "levels", "threads2", "pshort"):
            s.pop(k, None)
        if s["pol"] == "rand":
            s["gap"] = rng.choice([1, 2, 5, 10, 30, 100])
            if "stall" in s:
                s["stall"] = rng.randint(0, plan["callers"] - 1)
        plan.update(s)
        plan.update(cases.env(rng))
        plan["race"] = rng.randint(0, 1)
        return {"kind": "api", "variant": variant, "plan": plan}


class C04(SimProp):
    id = "C04"
    needs = [("api", v) for v in ALL]
    quick, thorough = 3000, 37500
    kinds = ("step",)
    rule = "one or more time steps compared pointwise with the reference model"
    assumptions = ["reference model in extended precision; tolerance scales with operator norms", "the documented radial dissipation of the current level is judged by C17: a step is accepted with or without it"]

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        plan = self.common(rng, self.pick_size(rng, tier), variant)
        plan.update(sc="step", steps=rng.randint(1, 3), data=rng.choice([0, 1, 2, 2, 3, 4]), damp=rng.choice(["0.02", "0.1", "0.3"]), qamp=rng.choice(["1", "0.1", "5"]))
        plan["resync"] = rng.randint(0, 1)
        if rng.random() < 0.025:     # a long history on a tiny grid
            plan.update(self.common(rng, 0, variant, tiny=True))
            plan.update(nx=9, steps=rng.choice([40, 70, 130, 270]), resync=1)
        elif rng.random() < 0.15:    # a field far from the vacuum, or (the linear equation has no scale) a huge or tiny one
            if linear(plan):
                plan["damp"] = rng.choice(["1e-9", "1e-4", "1e3", "1e6", "1e12"])
            else:
                plan["off"] = rng.choice(OFFSETS if plan["km1"] != "0.0" else OFFSETS + ["-1.0"] * 3)
        if rng.random() < 0.7:
            plan.update(cases.sched(rng))
        plan.update(cases.env(rng))
        return {"kind": "api", "variant": variant, "plan": plan}


class C05(SimProp):
    id = "C05"
    needs = [("api", v) for v in ALL]
    quick, thorough = 8000, 100000
    kinds = ("op", "row")
    rule = "grid-wide operators or row accessors compared with the reference model on every grid point"

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        plan = self.common(rng, self.pick_size(rng, tier), variant)
        if rng.random() < 0.75:
            plan.update(sc="ops", calls=rng.randint(3, 8), callers=rng.choice([1, 1, 1, 2, 3]), damp=rng.choice(["1", "1e-6", "1e4"]))
            if rng.random() < 0.3:
                plan["ops"] = 1 << rng.choice([0, 1, 2, 3, 4, 5, 6, 7] if plan["nm"] == plan["nl"] else [0, 1, 2, 3, 4, 6, 7])
        else:
            plan.update(sc="rows", calls=rng.randint(2, 5))
        if rng.random() < 0.8:
            plan.update(cases.sched(rng, 60000))
        plan.update(cases.env(rng))
        return {"kind": "api", "variant": variant, "plan": plan}


class C06(SimProp):
    id = "C06"
    needs = [("api", v) for v in ALL]
    quick, thorough = 8000, 100000
    kinds = ("diag",)
    rule = "residual, total variation and energy density compared with their definitions"

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        plan = self.common(rng, self.pick_size(rng, tier), variant)
        plan.update(sc="diag", calls=rng.randint(1, 4), callers=rng.choice([1, 1, 2]), damp=rng.choice(["0.2", "1e-3", "0.5"]))
        if rng.random() < 0.15:
            if linear(plan) and plan["V2"] == "0.0":
                plan["damp"] = rng.choice(["1e-9", "1e3", "1e9"])
            else:
                plan["off"] = rng.choice(OFFSETS if plan["km1"] != "0.0" else OFFSETS + ["-1.0"] * 3)
        if rng.random() < 0.85:
            plan.update(cases.sched(rng, 60000))
        plan.update(cases.env(rng))
        return {"kind": "api", "variant": variant, "plan": plan}


class C11(SimProp):
    id = "C11"
    needs = [(k, v) for k in ("main", "api") for v in ALL]
    quick, thorough = 3000, 37500
    kinds = ("bounds", "free", "leak")
    rule = "every heap access of the run checked, and every allocation accounted for"
    assumptions = ["bounds are checked for heap memory accessed by compiled repository code and by the transform libraries' argument buffers; stack and static arrays are not"]

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        sc = rng.choice(["mem", "mem", "mem", "memops", "memops", "main", "main", "step", "ops", "rows", "diag", "shared", "life", "csv"])
        plan = self.common(rng, rng.choice([0, 0, 1]) if tier == "quick" else rng.choice([0, 1, 2]), variant, nt=rng.randint(2, 4))
        plan["sc"] = sc
        plan["mem"] = 1
        if sc == "mem":
            plan.update(cycles=rng.choice([1, 2, 5]), steps=rng.randint(1, 2), mdata=rng.randint(0, 4))
        elif sc == "memops":
            plan.update(calls=9)
        elif sc == "step":
            plan.update(steps=1, data=rng.choice([0, 2]), check=0)
        elif sc in ("ops", "rows", "diag", "csv"):
            plan.update(calls=rng.randint(2, 5))
        elif sc == "shared":
            plan.update(callers=rng.choice([1, 2, 3]), calls=4, actctor=1)
        elif sc == "life":
            plan.update(hist=history(rng, 8), callers=2)
        if sc == "mem" and plan["nx"] * plan["nl"] > 100:
            plan.update(cycles=rng.choice([1, 5]), steps=1)
        if sc == "main" and rng.random() < 0.4:     # running out of memory on the way
            plan.update(fail_at=int(10 ** rng.uniform(0, 4.5)), fail_kind=rng.choice([0, 0, 1, 2]), fail_len=rng.choice([1, 1, 2, 5, 0]), fail_p=rng.choice([0, 0, 0.5, 0.1]))
        s = cases.sched(rng)
        plan.update(s)
        plan.update(cases.env(rng))
        return {"kind": "main" if sc == "main" else "api", "variant": variant, "plan": plan}

    def execute(self, ctx, case):
        out = Outcome()
        res = out.add(ctx.run(case["kind"], case["variant"], case["plan"]))
        out.tags += self.tagsof(case)
        self.sim_viol(out, res, expect_ok=False)
        if not res.r["viol"] and "fail_at" not in case["plan"] and res.r["status"] in (256 + 11, 256 + 7):
            out.bad("bounds", "the run died of an invalid memory access")
        return out


class C12(SimProp):
    id = "C12"
    needs = [("main", v) for v in ALL]
    quick, thorough = 2000, 25000
    kinds = ("content", "timeout")
    rule = "whole program compared with the reference model: every snapshot row and every console diagnostic"
    assumptions = ["a run may or may not apply the documented radial dissipation (judged by C17), but must do the same throughout"]

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        plan = self.common(rng, self.pick_size(rng, tier), variant, nt=rng.choice([1, 2, 3, 4, 5, 6, 8]))
        plan["t_step_save"] = rng.choice([1, 1, 2, 3, 4, 10])
        if rng.random() < 0.03:      # many snapshots on a tiny grid
            plan.update(self.common(rng, 0, variant, nt=rng.choice([12, 31, 102, 130, 270, 300]), tiny=True))
            plan.update(nx=9, t_step_save=rng.choice([1, 1, 2]))
        long = {3: 33000, 4: 66000}.get(i) or (tier == "thorough" and i % 2500 == 5 and rng.choice([33000, 66000, 132000]))
        if long:                     # counters of 16 bits and less overflow
            nl = rng.choice([1, 1, 2])
            plan.update(self.common(rng, 0, variant, nt=long + rng.randint(0, 99), narrow=False, nonlinear=False, tiny=True))
            plan.update(nx=9, nl=nl, nm=nl, nlat=nl + 1, nphi=2 * nl + 1, l_ang=nl, m_ang=rng.randint(0, nl), V2="0.0", t_step_save=rng.choice([300, 1000, 5000]), budget=10 ** 11, wall=600)
        plan.update(sc="main", oracle=1, nofile=16)
        plan.update(cases.outdir(rng))
        if not long and rng.random() < 0.6:
            plan.update(cases.sched(rng))
        plan.update(cases.env(rng))
        return {"kind": "main", "variant": variant, "plan": plan}

    def execute(self, ctx, case):
        out = SimProp.execute(self, ctx, case)
        if not out.viol and not out.other:
            p = case["plan"]
            want = {"params.txt"}
            for k in range(0, (p["nt"] - 1) // p["t_step_save"] + 1 if p["nt"] >= 1 else 1):
                want |= {"f_RPsl_%d.csv" % k, "rho_RPsl_%d.csv" % k}
            got = set(out.files)
            if got != want:
                out.bad("content", "files written: unexpected %s, missing %s" % (sorted(got - want), sorted(want - got)))
        return out


class C15(SimProp):
    id = "C15"
    needs = [("api", v) for v in ALL]
    quick, thorough = 8000, 100000
    kinds = ("shared", "fftw", "shtns", "free", "bounds")
    rule = "history with at least two objects and one use after another object was destroyed or created"

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        plan = self.common(rng, 0, variant)
        plan.update(sc="life", hist=history(rng, rng.randint(4, 22)), callers=rng.randint(1, 3), mem=1)
        s = cases.sched(rng, 20000)
        plan.update(s)
        plan.update(cases.env(rng))
        return {"kind": "api", "variant": variant, "plan": plan}

    def nontrivial(self, case, out):
        h = case["plan"]["hist"]
        return h.count("c") >= 2 and ("u" in h or "t" in h)

    def shrink(self, ctx, case, key):
        toks = case["plan"]["hist"].split(".")
        for n in (4, 2, 1):
            for i in range(0, len(toks), n):
                t = toks[:i] + toks[i + n:]
                if t:
                    yield dict(case, plan=dict(case["plan"], hist=".".join(t)))
        yield from SimProp.shrink(self, ctx, case, key)


class C17(SimProp):
    id = "C17"
    needs = [("api", v) for v in ALL]
    quick, thorough = 2000, 25000
    kinds = ("dissip",)
    rule = "filter applied to random radial content and compared with the documented dissipation"

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        plan = self.common(rng, self.pick_size(rng, tier), variant, narrow=False)
        plan.update(sc="dissip", calls=rng.randint(2, 4))
        if rng.random() < 0.7:
            plan.update(cases.sched(rng, 20000))
        plan.update(cases.env(rng))
        return {"kind": "api", "variant": variant, "plan": plan}

    def execute(self, ctx, case):
        out = Outcome()
        res = out.add(ctx.run(case["kind"], case["variant"], case["plan"]))
        out.tags += self.tagsof(case)
        self.sim_viol(out, res)
        m = re.search(r"none=(\d+) documented=(\d+)", res.r["data"])
        if m and int(m.group(1)) and not out.viol:
            self.finding(out, "grid-filter-radial-noop", "Grid::filter leaves the radial content of the field unchanged: the documented radial dissipation is never applied")
        return out


def history(rng, n):
    alive, toks = 0, []
    for _ in range(n):
        r = rng.random()
        if alive == 0 or (r < 0.35 and alive < 6):
            k = rng.choice([0, 0, 0, 1, 2, 3])
            toks.append("c%d%d" % (k, rng.choice([9, 10, 12, 13, 17])))
            alive += 1
        elif r < 0.65:
            toks.append("u%d" % rng.randint(0, alive - 1))
        elif r < 0.8:
            toks.append("t%d" % rng.randint(0, alive - 1))
        else:
            toks.append("d%d" % rng.randint(0, alive - 1))
            alive -= 1
    return ".".join(toks)


PROPS = [C01, C02, C03, C04, C05, C06, C11, C12, C15, C17]
