#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(D + "/properties.jsonl")]

EMU = "online monitor: every byte sent to the terminal device replayed into a VT emulator and compared with a reference screen model"
SYS = "system-call boundary monitor (interposed libc calls) with injected short, interrupted and failing calls; "
TRUST = " Trusts the emulator (standard meaning of the terminfo sequences) and the character-width table the library itself uses."
T = {
 "S01": (EMU, "Compares every refresh of seeded random drawing histories on 29 terminal types cell by cell." + TRUST),
 "S02": (EMU, "Compares text layout and the terminal's cursor after every refresh of random histories in and out of bounds." + TRUST),
 "S03": (EMU, "Compares cells after random overwriting of wide, narrow and combining characters." + TRUST),
 "S04": (EMU, "Strings over all of Unicode, hostile ones included; any sequence, mode or cell not accounted for is a violation." + TRUST),
 "S05": (EMU, "Random resizes with the emulated terminal's content scrambled as terminals do; compared after the next refresh." + TRUST),
 "S06": (SYS + "state snapshots (tcgetattr, sigaction, emulated terminal modes) compared before and after", "Failure of creation at every system call in turn, panics and drops at random points." + TRUST),
 "S07": (EMU + "; concurrent recorded histories checked for atomic units and final content", "Stress with random delays inside device writes; only schedules that occurred are judged." + TRUST),
 "S08": (EMU + "; device errors injected into the writes of refreshes", "Random error positions over several refreshes on screens that take several writes; judged at the next refresh that succeeds." + TRUST),
 "S09": ("online monitor: every byte sent attributed to a call and replayed singly into a VT emulator; characters written and cells that change compared with the set of changed cells of a reference model", "Random drawing histories; gaps of up to 8 cells between changed ones may be written again." + TRUST),
 "T01": (SYS + "exactly-once order checker over the recorded device output", "Random write sizes and fault plans, device output matched against the accepted calls."),
 "T02": (EMU, "Attributes of every cell compared after random attribute and text calls on 41 terminal types." + TRUST),
 "T03": (EMU, "Cursor and cells compared after every cursor or erase call, counts from 0 to the maximum." + TRUST),
 "T04": ("offline checker over the recorded device output of concurrent writers (unit integrity and per-thread order)", "Stress with random delays inside device writes; only schedules that occurred are judged."),
 "T05": ("lock-matrix probes and stress with a watchdog for lack of progress", "A stall must be reproduced with every thread asleep before it counts; only schedules that occurred are judged."),
 "T06": (EMU + "; differential oracle against the documented calls", "Every macro form over random arguments, with injected device errors." + TRUST),
 "T07": ("system-call boundary monitor: every call of an operation made to fail in turn, and the result, the state and the input afterwards compared", "Random operations in random buffer states; one failure per run; terminal types with one unusable capability."),
 "T08": ("system-call boundary monitor on three pseudo-terminals: every byte sent, byte read and setting changed attributed to a device", "Random mixes of up to three terminals at once; at most one prepared on each device."),
 "T09": ("linearizability monitor: two threads stepped by the processor's trap flag and switched at random instructions; results, device output and final state looked up among those of all sequential orders, which are run as well", "Two threads of 1-4 calls; only schedules that occurred are judged."),
 "P01": (SYS + "kernel state (termios, dispositions) and emulated terminal modes compared bit by bit with the configuration", "Random initial settings, configurations and terminal types."),
 "P02": (SYS + "complete state compared before prepare and after the matching restore", "Random nesting to depth 5 with signals, resumes and input in between."),
 "P03": (SYS + "complete state compared after a resume with the active configuration", "Random settings left behind by the shell during each suspension."),
 "I01": ("recorded input histories on a virtual device, decoded by an independent longest-match reference decoder", "Random streams of whole keys and characters, any backlog, short and interrupted reads, 41 terminal types. Trusts terminfo key capabilities."),
 "I02": ("recorded input histories on a virtual device, compared with the reports that were generated", "Random well-formed and malformed SGR reports between sentinels."),
 "I03": ("exactly-once stream matcher over recorded events and raw reads", "Random segmentation and mixes of reading calls, on a virtual device and on a real pseudo-terminal."),
 "I04": ("hostile-input workload with a progress monitor (bounded calls, sentinels must be read, no panic)", "Random and structured garbage; bounded number of calls per byte."),
 "I05": ("time-stamped calls on a real pseudo-terminal with arrivals and signal storms", "Early returns are judged to the millisecond; late ones only beyond 4 s and when reproduced three times, so that a busy machine raises no alarm."),
 "G01": ("signals raised at system-call boundaries and from other threads; conservation checker over returned events", "Random orders and instants; only schedules that occurred are judged."),
 "G02": ("signals raised at every system-call boundary of a blocking call, at single instructions (trap flag) on a virtual clock, and at random instants, with a rescue thread detecting a missed wake-up", "A missed wake-up counts when the read was rescued by later input three times in a row."),
 "G03": ("signals raised at random single instructions (processor's trap flag) of every kind of call, with monitors for allocation, errno and lack of progress, and a differential comparison with the undisturbed run", "Up to 8 signals per run; single-threaded calls; only instructions hit are judged."),
 "R01": (SYS + "descriptor table, with the flags of every descriptor, compared before and after each step; every close of a descriptor that is not open noted", "Every failing system call of creation in turn, decoy descriptors on reused numbers."),
 "R02": ("AddressSanitizer over the workloads of the other properties, Miri over the buffer, input and locking code, valgrind memcheck over a sample", "Errors on executions that occurred; Miri runs with the system calls replaced by stand-ins."),
 "R03": ("ThreadSanitizer (with an instrumented standard library) over the concurrent workloads", "Races on executions that occurred, independent of timing within the sanitizer's history window."),
 "R04": ("allocation monitor: a counting allocator balances what is allocated and freed within the library's calls over repeated workloads", "Growth is judged over 112 repetitions of a random list of steps; memory mapped otherwise than by the allocator is not seen."),
 "D01": ("differential monitor against a sorted map after every operation", "Random operation histories over small prefix-rich alphabets."),
 "D02": ("exhaustive comparison with bit sets", "All 64 sets, all pairs, all signals."),
 "D03": ("exhaustive comparison over every char; random strings, sizes and themes against direct definitions", "Complete for per-char functions, exploration for the rest."),
}
have = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else set(T)
checks = [{"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "evidence_file": f"evidence/{i}.json",
  "technique": T[i][0], "level": "exploration", "level_note": T[i][1]} for i in ids if i in have]
m = {"version": 1, "setup_cmd": "./check build all", "checks": checks,
  "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in have],
  "notes": "No hooks in /repo: the harness interposes libc calls in its own executable. ./check replay <file> runs a recorded case again."}
json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1)
open(D + "/MANIFEST.json", "a").write("\n")
