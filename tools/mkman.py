#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))

NOTES = {
 "C01": ("seeded schedule search over the worker pool with failing local searches, against a sequential reference of the same queue",
         "real GSL_Minimize_gen_all and its worker threads under a serialising scheduler; local searches fail by injected GSL outcomes; polynomial toy potentials and real models"),
 "C02": ("seeded schedule search at synchronisation and memory-access granularity with a happens-before race detector inside the simulator",
         "library compiled with access callbacks; every load/store of the library is a possible preemption; deadlock = no runnable thread, livelock = step budget under a fair schedule"),
 "C03": ("seeded schedules and failing optimisers, against the candidate list recorded in the same run",
         "outcomes of every NLopt and GSL call recorded at the library boundary are the oracle for status and depth"),
 "C04": ("seeded interleavings of evaluations on one shared object, against bitwise single-threaded results", "all models, happens-before detection on every access"),
 "C05": ("seeded histories of initialisations, computations, failed initialisations and failing allocations on one object, against a fresh object in another simulated process",
         "bitwise comparison of everything the object reports"),
 "C06": ("enumerated and seeded output faults (short, torn, interrupted, failing writes, full device) on simulated files", "unmodified main() of the nine programs on an in-memory file system"),
 "C07": ("enumerated and seeded input faults (short, interrupted, failing reads and opens) on simulated files", "unmodified main() of the nine programs on an in-memory file system"),
 "C08": ("crash at every I/O operation and at seeded points of the computation; only bytes handed to the file survive", "unmodified main() of eight table programs; files compared with the undisturbed run"),
 "C09": ("seeded tables, orders, partitions and restarts of the programs, row by row against single-row runs", "unmodified main() of eight table programs; restarts simulated as separate processes"),
 "C10": ("seeded clocks, random sources and memory contents, output compared byte for byte", "unmodified main() of the nine programs; the clock, getrandom/random_device/rand and fresh memory belong to the simulator"),
 "C11": ("seeded query histories on one phase object, against fresh phases asked once and the potential itself", "real tracer on calculable phase structures"),
 "C12": ("seeded schedules and failing optimisers below the bisection in temperature, against the potential's own phase structure", "toy potentials with known critical temperatures"),
 "C13": ("seeded phase structures, options and tables through whole program runs, against an executable reference of statuses and temperatures", "potential replaced by polynomial with known phases; a share of cases runs the real potential"),
 "C14": ("seeded interleavings of concurrent writers, against a reference of the line set", "real logger on a simulated sink; access-level race detection"),
 "C15": ("a failing allocation or thread creation at enumerated and seeded positions of whole program runs", "one failure or all following; result compared with the undisturbed run"),
 "C24": ("seeded configuration files under input faults and truncation, against the same options on the command line", "unmodified main() of the nine programs; the configuration file lives in the in-memory file system"),
 "C16": ("seeded tables and options through whole program runs, columns judged by name against independent reference values", "all table programs and models, including varying column sets"),
}
PURE = "no schedule, fault, clock, I/O or history the property depends on: it is a statement about a pure function of its arguments, which simulation can only sample like a test"
NA = {
 "C17": PURE, "C18": PURE, "C19": PURE + " (numerical accuracy of an ODE solution)", "C20": PURE, "C21": PURE,
 "C22": "parsing an option list is a pure function; neither scheduling, time nor I/O faults can change it (reading the JSON option file, also under faults, is C24)", "C23": PURE}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    P = {}
    for m in ("p_mt", "p_tool", "p_out", "p_api"):
        P.update(importlib.import_module(m).PROPS)
    man = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "", "enable": "", "source_commits": []}, "checks": [], "not_applicable": []}
    for p in props:
        i = p["id"]
        if i in P:
            t, n = NOTES[i]
            man["checks"].append({"property": i, "quick_cmd": "python3 tools/dst.py check %s --tier quick" % i,
                                  "thorough_cmd": "python3 tools/dst.py check %s --tier thorough" % i,
                                  "technique": "deterministic simulation with fault injection: " + t, "level": P[i].level, "level_note": n})
        else:
            man["not_applicable"].append({"property": i, "reason": NA.get(i, "check not finished yet")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
