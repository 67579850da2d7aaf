#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "online trace monitor on the library's own node classes (runtime monitoring) under random searches"
T = {
    "P01": "runtime monitor counting trials over random pool histories with schedule noise",
    "P02": "runtime monitor with fault injection: clock made to expire at each reading, hang watchdog, noisy schedules",
    "P03": "runtime monitor under a virtual clock advanced inside trials",
    "P04": "runtime monitor over random histories of searching and re-targeting, trials held in progress",
    "P05": "ThreadSanitizer over concurrent searches, loggers, evaluation and random draws",
    "P06": "runtime lock-order monitor (interposed mutexes, gate-lock aware) with injected delays, plus hang watchdog",
    "P07": "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and valgrind memcheck over all workloads, plus live-node counting",
    "P08": MON, "P09": MON, "P10": MON, "P11": MON + ", whole-tree conservation check at rest",
    "P12": "offline checker comparing the whole tree with the problem after random searches",
    "P13": "offline checker of node sharing after random concurrent searches, plus release and re-use histories",
    "P14": MON + ", recomputing each mean from observed returns", "P15": MON + ", recomputing the selection rule; distribution tests",
    "P16": "runtime monitor comparing recommendations with the criterion recomputed from the tree",
    "P17": MON + ", soft Bellman equations recomputed after each backup", "P18": MON + ", policy recomputed at each selection; distribution tests",
    "P19": MON + ", policy recomputed from the same trial's previous policy", "P20": MON + ", sparsemax recomputed independently",
    "P21": MON + ", Bellman equations recomputed after each backup", "P22": MON + ", entropies and estimates recomputed after each backup",
    "P23": "runtime monitor comparing recommendations with the criterion recomputed from the tree",
    "P24": "differential runtime monitor: mirrored games searched side by side with the same random choices",
    "P25": "runtime monitor of temperature schedules over swept visit counts and of temperatures during search",
    "P26": MON + ", heuristics and priors compared with the user's functions at each node",
    "P27": "runtime monitor comparing long searches with exact solutions of the problem",
    "P28": "runtime monitor of sampling and arg-max helpers with scripted and real draws",
    "P29": "runtime monitor of distribution objects over random update histories, plus AddressSanitizer",
    "P30": "runtime monitor of random draws and of seeded runs compared pairwise, plus ThreadSanitizer",
    "P31": "runtime monitor of rollouts recorded at the environment interface",
    "P32": "runtime monitor of loggers under a virtual clock over random histories of search calls",
    "P33": "runtime monitor of value type laws over random and adversarial values",
    "P34": "runtime monitor of context and default-observation behaviour over random operation histories",
    "P35": "runtime monitor: tree dumps before and after inspection, printed form parsed and compared with the tree",
    "P36": MON + ", sampled outcomes tested against the problem's own distribution",
    "P37": "differential runtime monitor: searches with options omitted against searches with every option given",
}
N = ("Held on every execution explored (random problems, configurations, budgets, thread counts, schedules; counts in the evidence file). "
     "Assumes the environment given by the user is consistent; trusts the reference formulas in harness/, the compiler and the sanitizer runtimes. ")
NOTE = {
    "P05": "Race freedom on the interleavings observed; happens-before detection finds a race in any execution that performs both accesses without ordering, even if they do not collide.",
    "P06": "A cycle is reported from the acquisition order even when no deadlock happens in the run; cycles longer than five locks or of code paths not executed are not seen.",
    "P07": "Holds on the executed paths; memcheck covers uninitialised reads at a smaller scale.",
    "P27": "A statistical claim decided on small problems with exact solutions and temperatures small against the value gaps.",
}
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "exploration", "level_note": N + NOTE.get(p, "")})
m = {"version": 1, "setup_cmd": "python3 -c \"import plan; print('nothing to prepare: each check builds /repo itself')\"",
     "checks": checks, "not_applicable": [],
     "notes": "run.py builds the library from /repo's working tree together with harness/ (no hooks in /repo are needed: the monitors subclass the node classes and are compiled with -fno-access-control) and writes evidence/<id>.json. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
