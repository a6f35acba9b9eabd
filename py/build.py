"""Build the simulated solver from /repo's working tree, outside /repo.

Objects of the repository are compiled with -fsanitize=thread for its instrumentation calls only and
linked against the simulator's own runtime (no libtsan, no libgomp)."""
import concurrent.futures as cf, hashlib, os, re, shutil, subprocess, sys, tempfile

REPO = os.environ.get("SFK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
VARIANTS = {
    "cheb_c": ["-DUSE_CHEB", "-DSHTNS_CONTIGUOUS_LONGITUDES", "-DNDEBUG"],
    "cheb_n": ["-DUSE_CHEB"],
    "fd_c": ["-DSHTNS_CONTIGUOUS_LONGITUDES", "-DNDEBUG"],
    "fd_n": [],
}
# the Makefile defines these macros as 1
RT = ["rt", "gomp", "threads", "io", "fftw_seam", "shtns_stub"]
REDIR = ["memcpy", "memmove", "memset", "malloc", "calloc", "realloc", "free", "aligned_alloc",
         "posix_memalign", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock",
         "pthread_once", "pthread_create", "pthread_join", "pthread_detach", "pthread_cond_wait", "pthread_cond_timedwait",
         "pthread_cond_clockwait", "pthread_cond_signal", "pthread_cond_broadcast"]
REDIR += ["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "_ZNSt6thread4joinEv",
          "_ZNSt6thread6detachEv", "_ZNSt6thread20hardware_concurrencyEv",
          "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "_ZNSt18condition_variable10notify_oneEv",
          "_ZNSt18condition_variable10notify_allEv", "_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj"]
REDIR += ["_ZNSt28__atomic_futex_unsigned_base%sEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE" % n
          for n in ("19_M_futex_wait_until", "26_M_futex_wait_until_steady")]


class BuildError(Exception):
    pass


def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("$ " + " ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


def repo_objects():
    """The object list of Source/Makefile (what the shipped executable links)."""
    try:
        text = open(os.path.join(REPO, "Source/Makefile")).read().replace("\\\n", " ")
        m = re.search(r"^OBJ\s*[:?+]?=\s*(.*)$", text, re.M)
        objs = []
        for o in m.group(1).split():
            o = os.path.splitext(o)[0]
            if o not in objs and os.path.exists(os.path.join(REPO, "Source", o + ".cpp")):
                objs.append(o)
        if "main" in objs and len(objs) >= 5:
            return objs
    except (OSError, AttributeError):
        pass
    return ["params", "cheb", "finite_diff", "sphere", "grid", "io", "field", "initial_data", "scalar_eom", "main"]


class Build:
    """bins[(kind, variant)] = path;  kind is 'main' or 'api'."""

    def __init__(self, wanted, jobs=8):
        self.dir = tempfile.mkdtemp(prefix="sfk_build_")
        self.bins = {}
        self.log = []
        try:
            self._build(wanted, jobs)
        except BaseException:
            shutil.rmtree(self.dir, ignore_errors=True)
            raise

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _build(self, wanted, jobs):
        src = os.path.join(REPO, "Source")
        stub = "-I" + os.path.join(SIM, "stub")
        objs = repo_objects()
        variants = sorted({v for _, v in wanted})
        kinds = sorted({k for k, _ in wanted})
        tasks = []
        for f in RT:
            tasks.append(["g++", "-std=c++17", "-O2", "-w", stub, "-c", os.path.join(SIM, "rt", f + ".cpp"), "-o", f + ".o"])
        tasks.append(["g++", "-std=c++17", "-O2", "-w", "-c", os.path.join(SIM, "drv/ref.cpp"), "-o", "ref.o"])
        inst = ["-fopenmp", "-fsanitize=thread", "-w", stub]
        for v in variants:
            d = VARIANTS[v]
            tasks.append(["g++", "-std=c++17", "-O1", "-w"] + d + ["-c", os.path.join(SIM, "drv/server.cpp"), "-o", v + ".server.o"])
            for o in objs:
                if o == "main":
                    if "main" not in kinds:
                        continue
                    tasks.append(["g++", "-std=c++11", "-O2"] + inst + d + ["-Dmain=sfk_main", "-c", os.path.join(src, "main.cpp"), "-o", v + ".r_main.o"])
                else:
                    tasks.append(["g++", "-std=c++11", "-O2"] + inst + d + ["-c", os.path.join(src, o + ".cpp"), "-o", v + ".r_" + o + ".o"])
            for k in kinds:
                if (k, v) in wanted:
                    tasks.append(["g++", "-std=c++17", "-O1"] + inst + d + ["-I" + src, "-c", os.path.join(SIM, "drv", "scen_%s.cpp" % k), "-o", "%s.s_%s.o" % (v, k)])
        tasks.sort(key=lambda t: 0 if ("scen_api" in t[-3] or "ref.cpp" in t[-3]) else 1)
        with cf.ThreadPoolExecutor(jobs) as ex:
            for f in [ex.submit(sh, t, self.dir) for t in tasks]:
                f.result()

            def link(v):
                mine = [v + ".r_" + o + ".o" for o in objs if o != "main"]
                extra = [v + ".r_main.o"] if "main" in kinds else []
                scen = ["%s.s_%s.o" % (v, k) for k in kinds if (k, v) in wanted]
                und = set(re.findall(r"^\s*U (fftw_\w+)$", sh(["nm", "-u"] + mine + extra + scen, self.dir), re.M))
                args = []
                for s in REDIR + sorted(und):
                    args += ["--redefine-sym", "%s=__sim_%s" % (s, s)]
                for o in mine + extra + scen:
                    sh(["objcopy"] + args + [o], self.dir)
                rt = [v + ".server.o", "ref.o"] + [f + ".o" for f in RT]
                for k in kinds:
                    if (k, v) not in wanted:
                        continue
                    out = "sim_%s_%s" % (k, v)
                    sh(["g++", "-no-pie", "-o", out] + mine + (extra if k == "main" else []) + ["%s.s_%s.o" % (v, k)] + rt + ["-lfftw3", "-ldl", "-lpthread"], self.dir)
                    self.bins[(k, v)] = os.path.join(self.dir, out)
            for f in [ex.submit(link, v) for v in variants]:
                f.result()
        self.objs = objs
        for f in os.listdir(self.dir):
            if f.endswith(".o"):
                os.unlink(os.path.join(self.dir, f))

    def symbol(self, kind, variant, pc):
        """Name of the function that holds pc (for reports)."""
        try:
            pc = int(pc, 16)
            best = None
            for line in subprocess.run(["nm", "-nC", self.bins[(kind, variant)]], stdout=subprocess.PIPE, text=True).stdout.splitlines():
                m = re.match(r"^([0-9a-f]+) [tTwW] (.*)$", line)
                if m:
                    if int(m.group(1), 16) > pc:
                        break
                    best = m.group(2)
            return best
        except (OSError, ValueError):
            return None
