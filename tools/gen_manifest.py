#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks that exist."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TREE = "bounded-exhaustive enumeration of directory trees, run on the real scanner and compared with an independent reference model"
IDX = "bounded-exhaustive enumeration of index files, run on the real parser and compared with an independent reference model"
N = {
 "C01": (TREE, "All trees up to the stated size plus a boundary list. Trusts the reference model (written from FORMAT.v1.rst) and its own SHA-512/256, BLAKE2b and BLAKE3."),
 "C02": ("exhaustive enumeration of listing orders, entry-type availability, read splits and interruptions of each scan through intercepted system calls", "Every order up to the stated bounds on real scans; the file system is real, its answers are rearranged at the libc boundary."),
 "C03": ("stateless model checking: preemption-bounded exhaustive exploration of all interleavings of the real threaded scan under a controlled scheduler", "All schedules up to the preemption bound for the listed trees; thread pool replaced by a controlled implementation of the same interface, so the pool's own queueing is trusted."),
 "C04": ("exhaustive enumeration of option combinations against the default scan", "All combinations listed in the evidence, on an enumerated set of trees, both with and without thread support compiled in."),
 "C05": ("exhaustive enumeration of write acceptance patterns (short and interrupted writes at every call) of scan and emitter", "Every single and paired deviation within the stated bounds."),
 "C06": ("exhaustive enumeration of index prefixes, lengths and read splits", "Every prefix of the listed indexes and every split up to the bound."),
 "C07": ("bounded-exhaustive enumeration of byte strings as names, paths and targets through scan, emitter and parser", "All single bytes and pairs over the stated alphabet at each position; longer names are by listed shapes."),
 "C08": (TREE, "As C01, plus the parsed entries and hash lists of every scan."),
 "C09": (IDX, "Every enumerated index is re-emitted with the real emitter."),
 "C10": ("exhaustive enumeration of pairs and triples of entry kinds against a reference order", "All paths over the stated alphabet and depth."),
 "C11": ("explicit-state exploration of all operation sequences on the real cursor, in lockstep with a reference cursor model", "All sequences of next/advance up to the stated depth with arguments from the index and between its entries."),
 "C12": (IDX, "All assignments of entries to indexes within the bound."),
 "C13": ("explicit-state exploration of all operation sequences on the real merged cursor, in lockstep with a reference model", "All sequences up to the stated depth."),
 "C14": ("exhaustive enumeration of header combinations and builder failures", "All combinations of the listed headers."),
 "C15": ("crash-point enumeration: every index cut at every byte, read by all short call sequences", "Every cut of every listed index."),
 "C16": ("bounded-exhaustive enumeration of byte strings, token strings and mutations of indexes through the real parser, with allocation and step accounting", "All strings within the stated bounds; hangs are decided by a read budget."),
 "C17": ("exhaustive enumeration of line mutations and token sequences against a reference grammar", "Lines about which FORMAT.v1 says nothing (listed in DESIGN.md) are only checked for not disturbing their neighbours."),
 "C18": ("exhaustive enumeration of read splits, interruptions and transient errors of every reader call", "Every position, single and pairs within the bound."),
 "C19": (IDX, "Every malformed line at every position with every mix of next and advance within the bound."),
 "C20": ("bounded-exhaustive enumeration of contents, block sizes and read splits against a reference model", "All sizes and block sizes up to the stated bounds plus boundary values."),
 "C21": ("exhaustive enumeration of pairs of contents and of read faults", "All pairs of contents up to the stated length and mutations of larger ones."),
 "C22": ("fault enumeration: every system call of every scan fails once (and in pairs), under controlled schedules for threaded scans", "Every fault point of the listed trees."),
 "C23": ("fault enumeration: the destination fails or accepts partially at every byte and call", "Every fault point of the listed trees, sync, threaded and emitter."),
 "C24": ("exhaustive enumeration of (system call, path) points at which a path of the tree is replaced by a symbolic link", "Every point of the listed trees; replacement is atomic at the libc boundary."),
 "C25": ("exhaustive enumeration of (system call, mutation) points during scans", "Every point of the listed trees and mutations."),
 "C26": ("stateless model checking of the threaded scan with the first unfinished task stalled, over all schedules within the preemption bound", "As C03."),
 "C27": (TREE, "All splits of the enumerated trees into roots, all orders."),
 "C28": ("fault enumeration on the real command: the destination stops accepting data at every byte; all option combinations", "The command is run as a process with a file size limit and with /dev/full."),
 "C29": (TREE, "As C01 for plain names; oracle is the bundled shell script."),
 "C30": ("bounded-exhaustive enumeration of directory trees, all pairs compared by checksum", "All pairs of the enumerated trees."),
 "C32": ("bounded-exhaustive enumeration of scans with progress output under a controlled clock, with every single stderr, file system and destination fault", "All listed trees, clock steps and fault points; the wording of the output is only read for its numbers."),
 "C33": ("exhaustive enumeration of histories of changes, scans and failures, and preemption-bounded exploration of all interleavings of scans, parsers and emitters in one process", "All listed histories; interleavings switch at system calls, reads, writes and waits, not between instructions."),
 "C34": ("bounded-exhaustive enumeration of shapes and sizes of trees, indexes and files, and of stalled schedules, run on the real code with all memory counted against a limit that does not depend on what must not matter", "All listed shapes and sizes; limits leave 64 to 384 KiB for buffers, so what grows by less than that over the largest input is not seen."),
 "C35": ("preemption-bounded exploration of schedules and enumeration of configurations and failures of the real scan with workers counted, and of thread options of the real command", "All listed configurations and fault points; library threads are those of the replaced pool crate, the command's are counted by the kernel while its output is held up."),
 "C36": ("bounded-exhaustive enumeration of names (all single, thorough: double, edits and short strings) through every part that reads them, and of all types through every part that uses them", "All strings within one (two) edits; longer strangers are a list."),
 "C37": ("bounded-exhaustive enumeration of trees, configurations, schedules and failures on the real code, with every system call that could change something trapped by a seccomp filter and with the state of files and process compared before and after", "All listed trees, configurations, schedules and single failures; the command is judged by its effects only; access times are not looked at."),
 "C31": ("fault enumeration with descriptor accounting at every system call", "Every fault point of the listed trees."),
}
main = open(os.path.join(here, "harness/mc/src/main.rs")).read()
have = dict(re.findall(r'id: "(C\d+)", level: "(\w+)"', main))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": [], "not_applicable": []}
for i in ids:
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "model checking: " + N[i][0], "level": have[i], "level_note": N[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "No check is registered for it yet."})
m["notes"] = "No hooks in /repo: the harness uses the public API, replaces the futures-cpupool crate by a controlled one through [patch] in its own workspace, and intercepts libc calls by symbol interposition. /repo carries only fix: commits."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
