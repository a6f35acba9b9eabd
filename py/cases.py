"""Random but valid solver configurations, schedules and environments."""
import math

KEYS = ["nt", "nx", "nl", "nm", "nlat", "nphi", "t_step_save", "dt", "compactification_length", "Rmax", "Rmin",
        "black_hole_mass", "black_hole_spin", "km1", "k0", "k1", "k2", "V2", "V3", "V4", "initial_data_type",
        "initial_data_direction", "amp", "rl", "ru", "l_ang", "m_ang"]


def num(x):
    return repr(float(x))


def par(rng, size=1, cheb=True, nonlinear=None, narrow=None, nt=None):
    """size 0 tiny, 1 small, 2 medium, 3 one large direction."""
    p = {}
    big = rng.choice(["wide", "wide", "long", "long", "long", "longer", "over", "deep"]) if size == 3 else None
    nl = rng.choice({"wide": [12, 14, 16], "longer": [1], "over": [1, 2, 3], "deep": [20, 25, 31, 33]}[big] if big not in (None, "long") else [[1, 2, 3], [2, 3, 4, 5], [4, 6, 8], [1, 2]][size])
    if narrow is None:
        narrow = rng.random() < 0.25
    nm = rng.randint(0, nl) if narrow else nl
    if nonlinear is None:
        nonlinear = nm == nl and rng.random() < 0.7
    if nonlinear:
        nm = nl
    nlat = nl + rng.choice([1, 1, 2, 3, 4])
    nphi = 2 * nm + rng.choice([1, 2, 3, 4, 6])
    if big == "over":
        k = rng.random()
        nlat = rng.choice([31, 40, 64, 65, 100, 129]) if k < 0.6 else nlat
        nphi = rng.choice([32, 64, 66, 100, 128, 130, 257]) if k >= 0.6 else nphi
    nx = rng.choice({None: [[9, 10, 11], [9, 12, 13, 16, 17], [17, 21, 24, 33]][min(size, 2)], "long": [48, 49, 64, 65, 96, 97, 128, 129],
                     "longer": [192, 200, 255, 256, 257, 300, 384, 513]}.get(big, [9, 10]))
    mass = rng.choice([0.5, 0.5, 1.0, round(rng.uniform(0.2, 1.5), 3)])
    spin = mass * rng.choice([0.0, 0.3, 0.7, 0.998, 1.0, -0.5, -1.0, round(rng.uniform(-0.99, 0.99), 3)])
    hor = mass + math.sqrt(max(0.0, (mass - spin) * (mass + spin)))
    cl = rng.choice([1.0, 1.0, 1.0, 2.0, 0.7])
    if rng.random() < 0.3:
        hor_in = hor * rng.uniform(0.98, 1.3)
    else:
        hor_in = hor
    Rmin = hor_in / (1.0 + hor_in / cl)
    Rmax = cl if rng.random() < 0.75 else Rmin + (cl - Rmin) * rng.uniform(0.5, 0.97)
    dt = rng.choice([1.0, 0.5, 0.2]) * min(6.0 / max(nx, nlat, nphi) ** 2, 0.1 * (Rmax - Rmin) / (nx - 1) * (4 if not cheb else 1))
    p["nt"] = nt if nt is not None else rng.randint(2, 5)
    p["nx"], p["nl"], p["nm"], p["nlat"], p["nphi"] = nx, nl, nm, nlat, nphi
    p["t_step_save"] = rng.randint(1, 3)
    p["dt"] = num(dt)
    p["compactification_length"] = num(cl)
    p["Rmax"], p["Rmin"] = num(Rmax), num(Rmin)
    p["black_hole_mass"], p["black_hole_spin"] = num(mass), num(spin)
    z = lambda s: num(round(rng.uniform(-s, s), 3))
    if nonlinear:
        pick = rng.choice(["k", "V", "kV", "km1", "all"])
        p["km1"] = z(0.3) if pick in ("km1", "all") else "0.0"
        p["k0"] = num(round(rng.uniform(0.9, 2.0), 3))
        p["k1"] = z(1.0) if pick in ("k", "kV", "all") else "0.0"
        p["k2"] = z(1.0) if pick in ("k", "kV", "all") else "0.0"
        p["V2"] = z(1.0) if pick in ("V", "kV", "all") else "0.0"
        p["V3"] = z(1.0) if pick in ("V", "kV", "all") else "0.0"
        p["V4"] = z(3.0) if pick in ("V", "kV", "all") else "0.0"
        if rng.random() < 0.15:         # small coefficients
            for k in ("km1", "k1", "k2", "V2", "V3", "V4"):
                if p[k] != "0.0" and rng.random() < 0.6:
                    p[k] = num(float(p[k]) * rng.choice([0.01, 1e-3, 1e-4]))
        if rng.random() < 0.5:          # single terms
            for k in ("km1", "k1", "k2", "V2", "V3", "V4"):
                if rng.random() < 0.5:
                    p[k] = "0.0"
    else:
        p["km1"], p["k0"], p["k1"], p["k2"], p["V3"], p["V4"] = "0.0", "1.0", "0.0", "0.0", "0.0", "0.0"
        p["V2"] = z(1.0) if rng.random() < 0.5 else "0.0"
    p["initial_data_type"] = "compact_pulse"
    p["initial_data_direction"] = rng.choice(["time_symmetric", "ingoing", "outgoing"] * 8 + ["static", "Ingoing"])
    p["amp"] = num(rng.choice([0.1, 0.05, 0.2, -0.1] * 5 + ([-1.0, 1.0, -1.0] if p["km1"] == "0.0" and p["k1"] == "0.0" and p["V3"] == "0.0" else [0.1])))
    rl = hor * rng.choice([0.9, 1.1, 1.1, 1.3] * 4 + [-1.0, 0.0])
    p["rl"], p["ru"] = num(rl), num(rl + hor * rng.choice([1.9, 3.0, 4.0, 20.0] * 4 + [60.0, 150.0]))
    l = rng.randint(0, nl)
    p["l_ang"] = l
    p["m_ang"] = rng.randint(0, min(l, nm))
    return p


def sched(rng, span=200000):
    """Team sizes and a schedule policy."""
    s = {"threads": rng.choice([2, 2, 3, 3, 4, 5, 7, 8, 16, 24]), "sseed": rng.getrandbits(48)}
    s["levels"] = rng.choice([1, 1, 1, 2, 3])
    s["threads2"] = rng.choice([1, 2, 3])
    if rng.random() < 0.3:
        s["pshort"] = rng.choice(["0.3", "0.8"])
    pol = rng.choice(["rand", "rand", "rand", "pct", "pct", "rr", "serial"])
    s["pol"] = pol
    if pol == "rand":
        s["gap"] = rng.choice([3, 10, 30, 100, 400, 2000, 20000])
        if rng.random() < 0.25:
            s["stall"] = rng.randint(0, s["threads"] - 1)
    elif pol == "pct":
        s["depth"] = rng.choice([1, 2, 3, 5, 20])
        s["span"] = span
    elif pol == "rr":
        s["gap"] = rng.choice([1, 2, 7, 50, 1000])
    return s


def env(rng):
    """Uninitialised memory, addresses, clock, entropy."""
    return {"eseed": rng.getrandbits(48), "poison": rng.randint(0, 8), "poisonf": rng.randint(0, 7), "apol": rng.randint(0, 3),
            "quar": rng.choice([0, 1, 4, 32]), "stackfill": rng.choice([0, 255, 127, 64])}


def outdir(rng):
    """The directory named on the command line."""
    r = rng.random()
    if r < 0.55:
        return {}
    if r < 0.7:
        return {"out": rng.choice(["./", "./.", "o", "o/", "o/p", "out.put/run-1", "./o//p/"])}
    return {"out": "/".join("d" * rng.choice([3, 20, 60, 110, 240]) for _ in range(rng.choice([1, 1, 2, 3])))}


def params_text(p, order=None):
    return "".join("%s %s\n" % (k, p[k]) for k in (order or KEYS)).encode()
