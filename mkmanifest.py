#!/usr/bin/env python3
"""Write MANIFEST.json from the table below and na.json (reasons for the properties not claimed)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
SIM = ("deterministic simulation with fault injection: seeded search over schedules, faults and workloads of the unmodified binary "
       "under a simulated C library")
TRUST = (" Exploration: holds on every seeded run made, not proved. Trusts the virtual disk, clock, scheduler and process model "
         "(sim/simd/src/vfs.rs, world.rs) to behave like POSIX, and the interception of the C library (sim/shim).")
NOTE = {
 "C01": "Checks the bytes of the named file after every file operation and in every examined power-loss state, under kills at any operation, I/O failures, short and interrupted operations, full disk; formatted texts are also read independently (tokens, brackets, comments) for losses.",
 "C02": "Compares the exit status with the effect (complete text on standard output, in the file, or a true verdict) under seeded failures of any operation and of the output streams.",
 "C03": "Compares each disturbed run (pieces, interruptions, latency, clock jumps only) with an undisturbed run of the same command, byte for byte.",
 "C04": "Compares the whole virtual tree (names, kinds, modes, bytes) before and after each command, under failures.",
 "C05": "Runs the same text and settings under differing hash seeds, heap layouts, clocks, environments, names, schedules and companions, as a command and as library calls, and compares results with each other.",
 "C06": "Library batches under seeded schedules (every library call, allocation and many code edges are scheduling points) with failing and slow files; results compared, in order, with single-file runs.",
 "C07": "Histories of sequential and concurrent library calls with failing files and memory/thread/descriptor limits; checks isolation, survival and completion within a bounded number of steps.",
 "C08": "Concurrent atomic replacements of the file during --check; the verdict must be right for one version the file had.",
 "C09": "Histories of -w runs with kills, failures and power loss; then one successful -w, --check and a second -w are compared with the single undisturbed run.",
 "C10": "Several commands and editors at once on the same or neighbouring files under seeded schedules; every version observed must be complete and explained by the history.",
 "C11": "Configurations that are valid, partial, malformed, unreadable, replaced during the run or faulted; output must equal that of a version's exact settings or the command must fail without effect.",
 "C12": "Allocation number k, thread, descriptor, disk-block and stack limits; the command must end by itself, never claim an effect it did not have, and leave the old or the complete new text.",
 "C13": "Runs the real scripts/install-afmt.sh under bash with its external commands replaced by simulated ones, with seeded failures, wrong data, partial effects and kills at each command.",
 "C14": "The same simulation as C13, with a pseudo terminal and every kind of profile; compares the whole home and temporary directories before and after, and lets bash read the profile.",
 "C15": "Runs pairs of texts, the second twice the size of the first, under errors, interruptions and partial operations; counts basic blocks, allocations, operations, threads and virtual time against polynomial bounds about ten times what the worst text needs.",
}
INST = ("C13", "C14")
claimed = json.load(open(f"{V}/claimed.json"))
na = json.load(open(f"{V}/na.json"))
checks = []
for c in claimed:
    tech = SIM if c not in INST else "deterministic simulation with fault injection: seeded search over failures, partial effects and kills of every external command the real script runs"
    checks.append(dict(property=c, quick_cmd=f"./check.sh {c} quick", thorough_cmd=f"./check.sh {c} thorough", technique=tech,
                       level="exploration", level_note=NOTE[c] + (TRUST if c not in INST else " Exploration: holds on every seeded run made, not proved. Trusts the simulated commands (sim/install) to behave like the real ones.")))
m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seam is the C library (LD_PRELOAD), and sanitizer-coverage callbacks are added by compiler flags outside /repo.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
