"""Properties decided by simulated runs of the whole solver with injected faults: C07-C10."""
import re
from core import Prop, Outcome, tail, status
import cases
from props_solver import SimProp, ALL, console_equal, SCHED_KEYS, ENV_KEYS

ERRWORD = re.compile(r"error|fail|could not|cannot|can't|unable|incomplete|does not exist|not written|no space", re.I)


def csvs(files):
    return {f: b for f, b in files.items() if f.endswith(".csv")}


def base_plan(prop, rng, variant, nt=None):
    plan = prop.common(rng, rng.choice([0, 0, 0, 1]), variant, nt=nt or rng.randint(2, 4), nonlinear=None)
    plan["sc"] = "main"
    plan.update(cases.outdir(rng))
    return plan


BLANK = " \t\r"


class C07(SimProp):
    id = "C07"
    needs = [(k, v) for k in ("main", "api") for v in ALL]
    quick, thorough = 10000, 125000
    kinds = ("timeout", "no-progress")
    rule = "the parameter file was reordered, extended, cut off, still growing, or its reads failed"
    assumptions = ["numeric values are compared with the correctly rounded decimal value", "a file is cut off or grows only at line ends"]

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        p = cases.par(rng, 0, variant.startswith("cheb"), nt=2)
        kind = "api" if rng.random() < 0.6 else "main"
        # notation
        val = {k: str(v) for k, v in p.items()}
        for k in val:
            r = rng.random()
            if k in ("nt", "nx", "nl", "nm", "nlat", "nphi", "t_step_save", "l_ang", "m_ang"):
                if r < 0.04:
                    val[k] = "%d.0" % p[k]
                elif r < 0.07:
                    val[k] = "%de0" % p[k]
                elif r < 0.10 and kind == "api":
                    val[k] = rng.choice(["1e1", "2.5", "12.75", "0.3e2", "12abc"])
                elif r < 0.14 and kind == "api":
                    val[k] = str(rng.randint(9, 2000000000))
                elif r < 0.15 and kind == "api":    # does not fit
                    val[k] = rng.choice(["4294967305", "5000000000", "2147483648", "1e10", "1e300", "18446744073709551625", "nan", "inf", "9.0000000001"])
            elif k not in ("initial_data_type", "initial_data_direction"):
                if r > 0.996:           # not a number
                    val[k] = rng.choice(["1,5", "0,1", "1.2.3", "abc", "1e", "0.5f", "--1", "1d-3", "5%", "0.5;", "1.0e+", "1/2", "3..", "1'000", "$x", "2*0.5"])
                if kind == "api" and r < 0.3:
                    val[k] = rng.choice([repr(rng.uniform(-1e3, 1e3)), repr(rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)), "1e-3", "+0.25", "-7", ".5", "3.", "0.1000000000000000055511151231257827",
                                         "%.*f" % (rng.randint(20, 60), rng.uniform(-3, 3)), "0" * rng.randint(1, 300) + "%r" % rng.uniform(0, 9), "%.*e" % (rng.randint(17, 40), rng.uniform(-1e9, 1e9))])
            elif kind == "api" and r < 0.15:
                val[k] = rng.choice(["compact#2", "a=b", "#none", "x;y", "//", "it's", 'say"so"', "per%cent", "a" * rng.randint(24, 600), "\\n", "in:going", "{1}", "caf\u00e9", "0"])
        if rng.random() < 0.25:    # blanks around the value
            for k in val:
                if rng.random() < 0.3:
                    val[k] = rng.choice(["", "", " ", "  ", "\t", " \t "]) + val[k] + rng.choice(["", " ", "   ", "\t", "\r"])
        lines = [(k, val[k]) for k in cases.KEYS]
        if rng.random() < 0.8:
            rng.shuffle(lines)
        # other lines: names that contain or extend a parameter's name, repeated names further down
        for _ in range(rng.choice([0, 0, 2, 6, 20])):
            k = rng.choice(cases.KEYS)
            n = rng.choice([k + "2", "x" + k, k + "_old", k[:-1] or "n", "my_" + k, k.upper() if k.upper() != k else k + k, k + k])
            if n in val:
                continue
            lines.insert(rng.randint(0, len(lines)), (n, rng.choice(["3", "0.5", "17", "text", "1 2 3", ""])))
        if rng.random() < 0.05:    # a long file
            for j in range(rng.choice([60, 130, 300, 600, 1100, 4200])):
                lines.insert(rng.randint(0, len(lines)), ("extra_%d" % j, rng.choice(["3", "0.5", "text", ""])))
        # other lines whose text mentions parameters
        for _ in range(rng.choice([0, 0, 1, 3, 10])):
            k, k2 = rng.choice(cases.KEYS), rng.choice(cases.KEYS)
            n = rng.choice(["comment", "#", "", "note", "//", "old", "x"])
            lines.insert(rng.randint(0, len(lines)), (n, "" if not n else rng.choice(["%s 7" % k, "use %s 7 and %s 8" % (k, k2), "%s=7" % k, k, "", "%s\t9" % k, "x" * 5000 + " %s 3" % k, "-1 %s 2 %s" % (k, k2)])))
        for _ in range(rng.choice([0, 0, 1, 4])):
            k = rng.choice(cases.KEYS)
            at = max(j for j, (n, _) in enumerate(lines) if n == k)
            lines.insert(rng.randint(at + 1, len(lines)), (k, rng.choice(["3", "0.5", "99", "11", "ingoing"])))
        case = {"kind": kind, "variant": variant, "lines": lines, "plan": {"sc": "main" if kind == "main" else "params", "planner": 0}}
        plan = case["plan"]
        r = rng.random()
        if r < 0.25:
            case["cut"] = rng.randint(0, len(lines) - 1)
        elif r < 0.45:   # still being written
            at, g = rng.randint(0, len(lines)), []
            sizes = [0]
            for n, v in lines:
                sizes.append(sizes[-1] + len(n) + len(v) + 2)
            for _ in range(rng.randint(5, 200)):
                g.append(sizes[at])
                if rng.random() < 0.3:
                    at = min(len(lines), at + rng.randint(1, 4))
            if rng.random() < 0.7:
                g.append(sizes[-1])
            plan["grow"] = ":".join(map(str, g))
        flt = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 1, 2, 5])):
                op = rng.choice("rrrro")
                k = rng.randint(1, 60 if op == "r" else 28)
                if op == "o":
                    flt.append("i%d:%s" % (k, rng.choice(["ENOENT", "EACCES", "EMFILE", "EINTR", "EIO"])))
                else:
                    flt.append(rng.choice(["r%d:short:%d" % (k, rng.choice([1, 2, 3, 5, 17, 100])), "r%d:eintr" % k, "r%d:EIO" % k]))
        if rng.random() < 0.15:   # every read is short
            n = rng.choice([1, 2, 7, 40])
            flt = ["r%d:short:%d" % (k, n) for k in range(1, 400)]
        if flt:
            plan["flt"] = ",".join(dict.fromkeys(flt))
        if kind == "api" and rng.random() < 0.1:     # another file read before
            plan["two"] = 1
        plan["budget"] = 400000000
        plan.update(cases.env(rng))
        return case

    def execute(self, ctx, case):
        out = Outcome()
        kind, variant = case["kind"], case["variant"]
        lines = [tuple(x) for x in case["lines"]]
        want = {}
        for n, v in lines[:case.get("cut", len(lines))]:
            want.setdefault(n, v)
        want.pop("", None)
        missing = [k for k in cases.KEYS if k not in want]
        text = "".join("%s %s\n" % x for x in lines[:case.get("cut", len(lines))]).encode("latin1")
        want = {k: v.strip(BLANK) for k, v in want.items()}
        files = {"params.txt": text}
        if "two" in case["plan"]:
            files["params2.txt"] = "".join("%s %s\n" % (k, "9" if number(k, "9") == 9 else "first") for k in cases.KEYS).encode()
        r = out.add(ctx.run(kind, variant, case["plan"], files))
        out.tags.append("%s %s" % (variant, "cut" if "cut" in case else "growing" if "grow" in case["plan"] else "whole"))
        if r.files.get("params.txt") != text:
            out.bad("parameters", "the parameter file was changed")
        ok = r.r["status"] == 0 and r.r["finished"]
        files = csvs(r.files)
        bad_value = None
        for k in cases.KEYS:
            if k in want and number(k, want[k]) is None:
                bad_value = k
        self.sim_viol(out, r, expect_ok=False)
        if r.r["viol"]:
            return out
        if not ok:
            if kind == "main" and files:
                out.bad("parameters", "the run stopped with %s but had written %s" % (status(r.r["status"]), sorted(files)))
            if r.r["status"] == 0:
                out.bad("parameters", "the run stopped before evolving but reported success; console: " + tail(r.con))
            words = set(re.split(r"[^A-Za-z0-9_]+", r.con.decode("latin1")))
            if missing and "flt" not in case["plan"] and "grow" not in case["plan"] and not bad_value and not any(k in words for k in missing):
                out.bad("parameters", "required parameters %s are missing and the console names none of them: %s" % (missing, tail(r.con)))
            if not missing and not bad_value and "flt" not in case["plan"] and "grow" not in case["plan"]:
                out.bad("parameters", "a complete parameter file was rejected (%s): %s" % (status(r.r["status"]), tail(r.con)))
            return out
        if missing:
            out.bad("parameters", "the run went ahead although %s is missing" % missing[0])
        elif bad_value:
            out.bad("parameters", "the run went ahead although %s is %r" % (bad_value, want[bad_value]))
        elif kind == "api":
            got = dict(l.split("=", 1) for l in r.r["data"].splitlines() if "=" in l)
            for k in cases.KEYS:
                g = got.get(k)
                w = number(k, want[k])
                gv = g if isinstance(w, str) else number("dt", g)
                if gv != w:
                    out.bad("parameters", "%s is %r in the file but the solver uses %s" % (k, want[k], g))
                    break
        else:
            plain = "".join("%s %s\n" % (k, fmt(k, want[k])) for k in cases.KEYS).encode()
            b = out.add(ctx.baseline(kind, variant, {"sc": "main", "planner": 0}, {"params.txt": plain}))
            for f in sorted(set(csvs(b.files)) | set(files)):
                if b.files.get(f) != files.get(f):
                    out.bad("parameters", "%s differs from a run with the same parameters read without disturbance" % f)
                    break
        return out

    def nontrivial(self, case, out):
        return True

    def shrink(self, ctx, case, key):
        for k in ("cut",):
            if k in case:
                yield {x: v for x, v in case.items() if x != k}
        plan = case["plan"]
        for k in ("grow", "flt") + tuple(ENV_KEYS):
            if k in plan:
                yield dict(case, plan={x: v for x, v in plan.items() if x != k})
        if "flt" in plan:
            f = plan["flt"].split(",")
            for n in (len(f) // 2, len(f) // 4, 1):
                for i in range(0, len(f), max(n, 1)):
                    g = f[:i] + f[i + max(n, 1):]
                    if g:
                        yield dict(case, plan=dict(plan, flt=",".join(g)))
        if "cut" not in case and "grow" not in plan:
            lines = case["lines"]
            for i, (n, v) in enumerate(lines):
                if n not in cases.KEYS or any(m == n for m, _ in lines[:i]):
                    yield dict(case, lines=lines[:i] + lines[i + 1:])


def number(k, v):
    if k in ("initial_data_type", "initial_data_direction"):
        return v
    if v is None:
        return None
    try:
        x = float(v)
    except ValueError:
        return None
    if k in ("nt", "nx", "nl", "nm", "nlat", "nphi", "t_step_save", "l_ang", "m_ang") and (x != x or abs(x) == float("inf") or x != int(x) or abs(x) > 2147483647):
        return None
    return x


def fmt(k, v):
    x = number(k, v)
    return str(int(x)) if k in ("nt", "nx", "nl", "nm", "nlat", "nphi", "t_step_save", "l_ang", "m_ang") else v


class C08(SimProp):
    id = "C08"
    needs = [("main", v) for v in ALL]
    quick, thorough = 3000, 37500
    kinds = ("timeout", "no-progress")
    rule = "at least one fault was injected into opening, writing or closing a snapshot file"
    assumptions = ["faults on the console itself are not injected"]

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        plan = base_plan(self, rng, variant)
        case = {"kind": "main", "variant": variant, "plan": plan, "faults": []}
        for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
            w = rng.choice(["w", "w", "w", "c", "o", "quota"])
            at = rng.random()
            if w == "w":
                a = rng.choice(["EIO", "ENOSPC", "EDQUOT", "short", "short", "eintr", "stick"])
                if rng.random() < 0.25:   # the header, or the end of a file, or all of it
                    at = rng.choice([0.0, 0.999999])
            elif w == "c":
                a = rng.choice(["EIO", "ENOSPC", "EDQUOT"])
            elif w == "o":
                a = rng.choice(["EACCES", "ENOSPC", "EMFILE", "EROFS", "EISDIR", "EIO"])
            else:
                a = ""
            case["faults"].append([w, at, a, rng.choice([0, 1, 2, 9, 40, 100000]) if w == "c" else rng.choice([1, 2, 5, 9])])
        if rng.random() < 0.15:
            case["faults"] = [["w", rng.random(), rng.choice(["short", "eintr"]), rng.choice([1, 3])] for _ in range(rng.choice([5, 40]))]
        if rng.random() < 0.4:
            plan.update(cases.sched(rng))
        plan.update(cases.env(rng))
        return case

    def execute(self, ctx, case):
        out = Outcome()
        plan = dict(case["plan"])
        base = {k: v for k, v in plan.items() if k not in SCHED_KEYS + ENV_KEYS}
        b = out.add(ctx.baseline(case["kind"], case["variant"], base))
        if self.sim_viol(out, b) or b.r["viol"]:
            return out
        base.pop("check", None)
        want = csvs(b.files)
        nf = case.get("opens", len(want))
        flt, benign, opened = [], True, False
        for w, at, a, n in case["faults"]:
            if w == "quota":
                plan["quota"] = int(at * sum(map(len, want.values())))
                benign = False
            elif w == "w":
                flt.append("w%d:%s%s" % (1 + int(at * b.r["io_write"]), a, ":%d" % n if a == "short" else ""))
                benign = benign and a in ("short", "eintr")
            else:
                flt.append("%s%d:%s" % ("x" if w == "o" else "k", 1 + int(at * nf), a) + (":%d" % n if w == "c" else ""))
                benign = False
        if flt:
            plan["flt"] = ",".join(flt)
        r = out.add(ctx.run(case["kind"], case["variant"], plan))
        out.hit = sum(r.r[k] for k in ("f_open", "f_write_short", "f_write_eintr", "f_write_err", "f_nospace", "f_close"))
        for f in case["faults"]:
            out.tags.append("fault %s %s" % (f[0], f[2]))
        if self.sim_viol(out, r) or r.r["viol"]:
            return out
        con = r.con.decode("latin1").splitlines()
        for f in sorted(want):
            if r.files.get(f) != want[f]:
                stem = re.compile(r"(?<![A-Za-z0-9_])" + re.escape(f) + r"(?![A-Za-z0-9])")
                if not any(stem.search(l) and ERRWORD.search(l) for l in con):
                    got = r.files.get(f)
                    out.bad("incomplete file", "%s is %s and no console line reports it" % (f, "missing" if got is None else "incomplete (%d of %d bytes)" % (len(got), len(want[f]))))
                    break
        for f in csvs(r.files):
            if f not in want:
                out.bad("incomplete file", "unexpected file %s" % f)
        if benign:
            if csvs(r.files) != want:
                out.bad("short write", "a short or interrupted write changed %s" % [f for f in want if r.files.get(f) != want[f]][:3])
            e = console_equal(r.con, b.con)
            if e:
                out.bad("short write", "absorbed faults changed the console: " + e)
        else:
            # one file's failure changes nothing else
            nbad = sum(1 for f in want if r.files.get(f) != want[f])
            if "quota" not in plan and nbad > len([f for f in case["faults"] if f[2] not in ("short", "eintr")]):
                out.bad("other files", "%d files are incomplete after %d faults" % (nbad, len(case["faults"])))
            k = 0
            ref = b.con.decode("latin1").splitlines()
            for l in con:
                if k < len(ref) and (l == ref[k] or console_equal(l.encode(), ref[k].encode()) is None):
                    k += 1
            if k < len(ref):
                out.bad("other files", "the failure changed the rest of the run: console line %r is missing" % ref[k])
        return out

    def nontrivial(self, case, out):
        return getattr(out, "hit", 0) > 0

    def shrink(self, ctx, case, key):
        f = case["faults"]
        for i in range(len(f)):
            if len(f) > 1:
                yield dict(case, faults=f[:i] + f[i + 1:])
        yield from SimProp.shrink(self, ctx, case, key)


class C21(C08):
    id = "C21"
    needs = [("api", v) for v in ALL]
    quick, thorough = 10000, 125000
    kinds = ("csv", "timeout", "no-progress", "bounds", "free")
    rule = "snapshots written through the writers' public interface: judged against the reference model, or against the undisturbed files when a fault was injected"
    assumptions = ["values are compared to the 16 digits that are written; spectra to rounding of the transforms", "faults on the console itself are not injected"]

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        plan = self.common(rng, rng.choice([0, 0, 1]), variant)
        calls = rng.randint(1, 8)
        plan.update(sc="csv", calls=calls, names=rng.choice([1, 2, 5]), mem=rng.randint(0, 1))
        if rng.random() < 0.2:
            plan["longname"] = rng.choice([10, 40, 100, 120, 200])
        case = {"kind": "api", "variant": variant, "plan": plan, "opens": calls}
        if rng.random() < 0.5:
            plan["check"] = 0
            case["faults"] = C08.gen(self, rng, i, tier)["faults"]
        if rng.random() < 0.5:
            plan.update(cases.sched(rng))
        plan.update(cases.env(rng))
        return case

    def execute(self, ctx, case):
        if "faults" in case:
            return C08.execute(self, ctx, case)
        out = SimProp.execute(self, ctx, case)
        return out

    def nontrivial(self, case, out):
        return "faults" not in case or getattr(out, "hit", 0) > 0

    def shrink(self, ctx, case, key):
        if "faults" in case:
            yield from C08.shrink(self, ctx, case, key)
        else:
            yield from SimProp.shrink(self, ctx, case, key)


class C09(SimProp):
    id = "C09"
    needs = [("main", v) for v in ALL]
    quick, thorough = 3000, 37500
    kinds = ("timeout", "no-progress")
    rule = "the process was killed at least once before it finished, or a finished run was repeated in its directory"
    assumptions = ["a kill loses nothing already handed to the operating system (process crash, not power failure)"]

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        plan = base_plan(self, rng, variant)
        runs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            kind = rng.choice(["io", "io", "io", "ev"])
            at = rng.random()
            if rng.random() < 0.1:
                at = rng.choice([0.0, 0.999999])
            runs.append([kind, at, rng.choice([0, 0, 1, 3, 7, 20]), rng.choice([9, 9, 15, 15, 2, 1])])
        if rng.random() < 0.6:
            runs.append(["none", 0, 0, 0])
            if rng.random() < 0.2:
                runs.append(["none", 0, 0, 0])
        case = {"kind": "main", "variant": variant, "plan": plan, "runs": runs}
        if rng.random() < 0.5:
            plan.update(cases.sched(rng))
        plan.update(cases.env(rng))
        return case

    def execute(self, ctx, case):
        import shutil
        out = Outcome()
        plan = dict(case["plan"])
        base = {k: v for k, v in plan.items() if k not in SCHED_KEYS + ENV_KEYS}
        b = out.add(ctx.baseline("main", case["variant"], base))
        if self.sim_viol(out, b) or b.r["viol"]:
            return out
        full = b
        if any(r[0] == "ev" for r in case["runs"]):
            full = out.add(ctx.baseline("main", case["variant"], plan))
        want = csvs(b.files)
        nops = b.r["io_open"] + b.r["io_write"] + b.r["io_close"]
        first = b.r["io_open"] - len(want)    # parameter reads come first
        d = ctx.scratch()
        try:
            before = {}
            for kind, at, torn, sig in case["runs"]:
                p = dict(plan)
                if kind == "io":
                    p["killio"] = 1 + int(at * nops) if at < 0.1 else min(nops, 2 * first + 1 + int(at * (nops - 2 * first)))
                    if torn:
                        p["torn"] = torn
                elif kind == "ev":
                    p["crash_ev"] = 1 + int(at * full.r["ev"])
                if sig not in (0, 9):
                    p["ksig"] = sig
                r = out.add(ctx.run_in(d, "main", case["variant"], p))
                killed = r.r["status"] == 137 or r.r["signals"]      # a handled signal may end the run early, in good order
                out.tags.append("killed at an I/O operation" if killed and kind == "io" else "killed between" if killed else "completed")
                if not killed:
                    if self.sim_viol(out, r) or r.r["viol"]:
                        return out
                added = {}
                for f, c in csvs(r.files).items():
                    if f not in want:
                        out.bad("restart", "unexpected file %s" % f)
                        return out
                    if not c.startswith(before.get(f, b"")):
                        out.bad("restart", "running again in the directory changed bytes already in %s" % f)
                        return out
                    added[f] = c[len(before.get(f, b"")):]
                for f in before:
                    if f not in r.files:
                        out.bad("restart", "running again in the directory removed %s" % f)
                        return out
                short = set()
                for f in sorted(want):
                    a = added.get(f, b"")
                    if not want[f].startswith(a):
                        out.bad("prefix" if killed else "restart", "what the run added to %s is not a prefix of the complete file" % f)
                        return out
                    if a != want[f]:
                        short.add(f)
                if not killed and short:
                    out.bad("restart", "the completed run added only part of %s" % sorted(short)[0])
                    return out
                num = lambda f: int(re.search(r"_(\d+)\.csv$", f).group(1))
                begun = [num(f) for f in want if added.get(f)]
                if begun:
                    last = max(begun)
                    for f in sorted(short):
                        if num(f) < last:
                            out.bad("prefix", "%s is incomplete although snapshot %d was begun" % (f, last))
                            return out
                e = console_prefix(r.con, b.con) if killed else console_equal(r.con, b.con)
                if e:
                    out.bad("console", e)
                    return out
                before = csvs(r.files)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return out

    def nontrivial(self, case, out):
        return any("killed" in t for t in out.tags) or len(case["runs"]) > 1

    def shrink(self, ctx, case, key):
        r = case["runs"]
        for i in range(len(r)):
            if len(r) > 1:
                yield dict(case, runs=r[:i] + r[i + 1:])
        for i, x in enumerate(r):
            if x[2]:
                yield dict(case, runs=r[:i] + [[x[0], x[1], 0, x[3]]] + r[i + 1:])
        yield from SimProp.shrink(self, ctx, case, key)


def console_prefix(a, b):
    la, lb = a.decode("latin1").split("\n"), b.decode("latin1").split("\n")
    if len(la) > len(lb):
        return "the console of the killed run is longer than that of the whole run"
    e = console_equal("\n".join(la[:-1]).encode(), "\n".join(lb[:len(la) - 1]).encode())
    if e:
        return e
    x, y = la[-1], lb[len(la) - 1]
    if not y.startswith(x) and re.sub(r"[-+0-9.einfa]+", "0", x)[:3] != re.sub(r"[-+0-9.einfa]+", "0", y)[:3]:
        return "console ends in %r instead of a beginning of %r" % (x, y)
    return None


class C10(SimProp):
    id = "C10"
    needs = [("main", v) for v in ALL]
    quick, thorough = 12000, 150000
    kinds = ("timeout", "deadlock", "no-progress")
    sites, nsites = set(), 0

    def extra_coverage(self, ctx):
        return {"allocation_call_paths_made_to_fail": len(self.sites), "allocation_call_paths_in_one_run": self.nsites}

    rule = "at least one allocation was made to fail"
    assumptions = ["failures are injected into operator new, malloc and fftw_malloc of the program; allocations inside libstdc++ go through operator new as well", "an access to a null pointer ends the process"]

    def gen(self, rng, i, tier):
        variant = ALL[i % 4]
        plan = base_plan(self, rng, variant, nt=rng.choice([2, 2, 3]))
        case = {"kind": "main", "variant": variant, "plan": plan, "at": rng.random() ** rng.choice([1, 1, 3])}
        if rng.random() < 0.1:
            case["at"] = 1 - rng.random() ** 4 * 0.2
        plan["t_step_save"] = rng.choice([1, 1, 1, 2])
        if rng.random() < 0.6:     # a field that every later step changes visibly
            plan["l_ang"], plan["m_ang"] = plan["nl"], rng.randint(0, plan["nm"])
        if rng.random() < 0.7:     # one call path, at one of its uses
            case["site"] = rng.random()
            case["nth"] = rng.choice([0.0, rng.random(), rng.random(), rng.random(), 0.999999])
            case["min"] = rng.choice([1, 3, 6])    # paths used at least this often
        else:
            plan["fail_kind"] = rng.choice([0, 0, 1, 2])
        plan["fail_len"] = rng.choice([1, 1, 1, 2, 5, 0])
        if plan["fail_len"] and rng.random() < 0.25:    # later allocations fail as well, now and then
            plan["fail_p"] = rng.choice([0.5, 0.2, 0.05, 0.01])
        if rng.random() < 0.5:
            plan.update(cases.sched(rng))
        plan.update(cases.env(rng))
        return case

    def execute(self, ctx, case):
        out = Outcome()
        plan = dict(case["plan"])
        base = {k: v for k, v in plan.items() if k not in SCHED_KEYS + ENV_KEYS + ["fail_kind", "fail_len", "fail_p"]}
        if "site" in case:
            base["sites"] = 1
        b = out.add(ctx.baseline("main", case["variant"], base))
        if self.sim_viol(out, b) or b.r["viol"]:
            return out
        if "site" in case:
            sites = [list(map(int, l.split(":"))) for l in b.r["data"].split()]
            often = [x for x in sites if x[1] >= case["min"]]
            sites = often or sites
            h, cnt = sites[int(case["site"] * len(sites))]
            plan["fail_site"], plan["fail_nth"] = h, 1 + int(case["nth"] * cnt)
            with ctx.lock:
                self.sites.add((case["variant"], h))
                self.nsites = max(self.nsites, len(sites))
        else:
            plan["fail_at"] = 1 + int(case["at"] * b.r["allocs"])
        r = out.add(ctx.run("main", case["variant"], plan))
        out.hit = r.r["alloc_fail"] > 0
        self.sim_viol(out, r, expect_ok=False)
        if r.r["viol"]:
            return out
        want, got = csvs(b.files), csvs(r.files)
        st = r.r["status"]
        out.tags.append("no failure reached" if not out.hit else "completed" if st == 0 else "ended by " + status(st))
        for f in sorted(got):
            if not want.get(f, b"\0").startswith(got[f]):
                out.bad("wrong output", "after a failed allocation %s is not a prefix of the undisturbed file (%s)" % (f, status(st)))
                return out
        if st == 0:
            if not r.r["finished"]:
                out.bad("silent stop", "an allocation failed and the program stopped early but reported success; console: " + tail(r.con))
            elif got != want:
                out.bad("wrong output", "an allocation failed, the program reported success, and %s is missing or incomplete" % [f for f in sorted(want) if got.get(f) != want[f]][:3])
            else:
                e = console_equal(r.con, b.con)
                if e:
                    out.bad("wrong output", "an allocation failed and the program reported success: " + e)
        return out

    def nontrivial(self, case, out):
        return getattr(out, "hit", False)


PROPS = [C07, C08, C09, C10, C21]
