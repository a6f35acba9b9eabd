"""Write MANIFEST.json from the registry of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, core

NA = {
    "C18": "A pure function of its input with no schedule, clock, I/O or fault to simulate; the operators' values at the simulated grid sizes are decided by C03-C05 and C17.",
    "C19": "A statement about the accuracy of long physical evolutions against continuum theory, not about any schedule, fault or history; each step and each run are compared with an independent model by C04 and C12.",
    "C20": "Source/unit_manager.cpp, the only code with sub-grids, is in no build target and does not compile against the current Grid and Field interfaces: there is nothing to run.",
}
TECH = "deterministic simulation: seeded search over %s"
WHAT = {
    "C01": ("thread interleavings, team sizes, stalls, heap contents and clocks; bitwise comparison with the serial run", "exploration"),
    "C02": ("thread interleavings with happens-before race and deadlock detection on every access", "exploration"),
    "C03": ("interleavings of concurrent callers on shared operators; dense long-double reference", "exploration"),
    "C04": ("interleavings and configurations of time steps; independent RK4 reference model", "exploration"),
    "C05": ("interleavings of grid operators and row accessors; dense reference model", "exploration"),
    "C06": ("interleavings of diagnostics; definitions in long double", "exploration"),
    "C07": ("read faults, truncated and growing parameter files, console faults; independent parser", "exploration"),
    "C08": ("output faults (short, interrupted, failed, full disk) on whole runs; byte and console oracle", "exploration"),
    "C09": ("kill points, torn writes and restarts of whole runs; prefix oracle", "exploration"),
    "C10": ("failing allocations on whole runs; exit status and prefix oracle", "exploration"),
    "C11": ("interleavings under a simulated heap with redzones, poison and conservation accounting", "exploration"),
    "C12": ("schedules of whole runs; end-to-end reference model of every output byte", "exploration"),
    "C13": ("interleavings of concurrent launches, clock jumps and kills; ownership of every changed path", "exploration"),
    "C14": ("failures, kills and full disks at every launch step; state of the run directory at process start", "exploration"),
    "C15": ("object life histories and interleavings; library contract checker and reference results", "exploration"),
    "C16": ("build histories with compiler failures, kills, edits and deletions; recorded provenance of linked objects", "exploration"),
    "C21": ("data, limits, schedules and output faults (short, interrupted, failed, full disk) for every writer; reference rows and byte comparison", "exploration"),
    "C17": ("schedules and configurations of the step's filter; documented dissipation as reference", "exploration"),
}


def main():
    reg = check.registry()
    checks, na = [], []
    for line in open(os.path.join(core.VERIF, "properties.jsonl")):
        pid = json.loads(line)["id"]
        if pid in NA:
            na.append({"property": pid, "reason": NA[pid]})
        elif pid in reg:
            c = reg[pid]
            what, level = WHAT[pid]
            note = "Sampled, not exhaustive: every failure found is real and replays exactly; silence covers the explored seeds only. Assumes: %s. Stubs: %s." % (
                "; ".join(c.assumptions) or "nothing beyond the stubs", "; ".join(c.stubs))
            checks.append({"property": pid, "quick_cmd": "python3 py/check.py " + pid,
                           "thorough_cmd": "VERIF_TIER=thorough python3 py/check.py " + pid,
                           "evidence_file": "evidence/%s.json" % pid, "technique": TECH % what, "level": level, "level_note": note})
        else:
            na.append({"property": pid, "reason": "No check yet."})
    m = {"version": 1, "setup_cmd": "python3 py/check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every seam is at compiler, linker or process level (see DESIGN.md). Replay a failure with: python3 py/check.py --replay FILE"}
    with open(os.path.join(core.VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
