#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
E = "exploration"; F = "fault_enumeration"; M = "model_checking"
checks = {
 "C01": (E, "bounded exhaustive exploration of the real put_data/read_data over block sequences and scripted readers",
         "Real code, no model. Complete within the stated alphabet of blocks (every folding level of the chunk tree), lengths and reader deviations (at most 2); nothing is said about contents outside it."),
 "C02": (E, "bounded exhaustive exploration of contents, reader scripts and store histories; ids compared pairwise and with recorded ids",
         "Real code. Complete within the alphabet of C01; trusts BLAKE3 and the committed record of ids."),
 "C03": (E, "bounded exhaustive exploration: every small tree through the real insert and fetch, directory listings in several orders",
         "Real binary. Complete for trees up to the bound; sweeps over names, sizes, depths, counts beyond it."),
 "C04": (E, "bounded exhaustive exploration of trees x all directory listing orders (imposed on the real binary), pairwise id comparison",
         "Real binary under an interposed readdir. Complete up to the bound; trusts BLAKE3."),
 "C05": (M, "explicit-state search over operation sequences of the real store, compared with a map model after every operation",
         "Every model transition is executed on the real SQLite-backed store. Complete to the full-sequence depth, breadth-first by model state beyond."),
 "C06": (E, "bounded exhaustive enumeration of stored id sets x texts on the real parser and store, against string prefixes",
         "Real code. Complete for the pool of ids and texts."),
 "C07": (M, "explicit-state search over ref operations and commands, compared with a list model after every operation",
         "Every sequence runs on the real store; sequences of commands on the real binary. Complete to the depth."),
 "C08": (F, "exhaustive enumeration of every file-system call of every listed command x every way it can fail (single faults, sticky faults, kills, pairs in the thorough tier), on the real binary",
         "Real binary and real SQLite under an interposed C library. Complete for the listed commands and starting points; faults in memory allocation and in calls outside repository, cache, sources and destination are not injected."),
 "C09": (F, "explicit-state enumeration of all crash points x subsets and torn variants of unsynced operations of recorded histories, each disk image recovered by the real binary",
         "The disk model is validated against the real files after every command; recovery runs the real binary. Trusts the sync semantics stated in the assumptions."),
 "C10": (M, "stateless exploration of the schedules of several real processes under a controlled scheduler at every file-system call (preemption-bounded), kills included, against the sequential results",
         "Real binary; every schedule up to the preemption bound at lock and write points, fewer at all points. Interleavings finer than a system call do not exist between these processes."),
 "C11": (E, "bounded exhaustive exploration of stored trees x states of the destination x crafted names, destination and surroundings compared before and after",
         "Real binary in scratch folders as an unprivileged view of paths. Complete for the enumerated trees, obstacles and names."),
 "C12": (E, "bounded exhaustive exploration of all ordered pairs of small trees through the real status and compare, against set differences of path maps",
         "Real binary. Complete for all pairs up to the bound; edits of larger trees and path forms beyond it."),
 "C13": (M, "explicit-state exploration of histories of edits, queries and commits in two repositories sharing one cache, on the real binary; answers compared with an empty cache and with set differences",
         "Every history up to the depth runs on the real binary with controlled inode, size and time. Complete for the listed operations and the pairs of times and sizes."),
 "C14": (E, "bounded exhaustive exploration of content pairs, edit placements, tree pairs and commit graphs through the real log, against an independent longest-common-subsequence oracle",
         "Real binary, real commits. Complete for the alphabets, lengths, placements and graphs listed; long files only by sweeps."),
 "C15": (E, "bounded exhaustive exploration of content pairs, edit placements, tree pairs and commit graphs through the real show, every patch applied by an independent strict applier",
         "Real binary, real commits. Complete for the alphabets, lengths, placements and graphs listed; long files only by sweeps."),
 "C16": (M, "explicit-state breadth-first search over command sequences on the real binary, compared with a model of HEAD, ref logs and commits after every command, all inspecting commands run in every state",
         "Every model transition is executed on the real binary and repository. Complete to the depth, by model state beyond the first levels."),
 "C17": (E, "bounded exhaustive exploration of trees x pattern sets x ways of naming the tree x positions of the repository folder on the real binary, against an independent pattern matcher",
         "Real binary. Complete for the trees, patterns and forms listed; trusts that ids identify trees (C04)."),
 "C18": (E, "bounded exhaustive exploration of pairs of (committed tree, working tree), exclude patterns, allowed places x ways of naming the repository, symbolic links, hard links and hostile names through the real checkout, against a model of the result and marks of everything else",
         "Real binary; only the allowed place is replaced, by a scratch directory. Complete for the trees, patterns, forms, links and names listed."),
 "C19": (F, "exhaustive enumeration of damages (every byte of every stored object, whole-object exchanges and removals, re-encoded objects, every used byte of the database file) x reading commands of the real binary, against the answers before the damage",
         "Real binary and real databases. Complete for the listed damages of the repositories used; larger objects by strided positions; trusts BLAKE3."),
 "C20": (M, "explicit-state exploration of repository placements x start directories x commands, and of histories of init, commit and set-head against a model of one repository per directory, on the real binary",
         "Every model transition is executed on the real binary. Complete for the placements and to the depth."),
 "C21": (E, "bounded exhaustive exploration of trees, contents and commit histories against the ids recorded for this release and ids worked out from the encoding, and of every object, ref and id of recorded repositories through every reading command, on the real binary",
         "Real binary. Complete for the recorded trees, histories and repositories; says nothing about content not recorded."),
 "C23": (E, "bounded exhaustive exploration of histories of commands x surroundings (flags, variables, clock, hash seeds, listing orders, limits, terminals, places) on the real binary, every step compared with the plain run",
         "Real binary. Complete for the listed surroundings, patterns and histories; pairs of surroundings in the thorough tier."),
 "C24": (E, "bounded exhaustive exploration of trees of odd entries (links, specials, unreadable, oddly named) x commands on the real binary, as an unprivileged user, against what following the links finds there",
         "Real binary. Complete for the listed kinds of entries in up to two (thorough: three) places."),
 "C25": (E, "exhaustive exploration of interleavings of commands of the real binary with changes of the working tree by someone else: every change before every file-system call on the tree, two-step changes before every pair of calls",
         "Real binary; changes are made by a preloaded library just before the chosen call. Complete for the listed changes, commands and small trees; changes between two calls on the tree commute with what the program does then."),
 "C26": (M, "explicit-state exploration of histories of edits, queries and commits in two repositories sharing a cache, on the real binary with its reads recorded, against a model of what the cache has seen",
         "Every model transition is executed on the real binary. Complete to the depth for the listed operations."),
 "C27": (E, "bounded exhaustive exploration of contents x sizes x commands on the real binary, measuring peak memory and comparing results",
         "Real binary. Complete for the listed contents and sizes; memory as the kernel accounts it."),
 "C22": (E, "bounded exhaustive exploration of contents stored twice and of (base, appended) pairs, counting stored objects",
         "Real code. Complete for the enumerated contents, lengths and command pairs."),
}
out = {
 "version": 1,
 "setup_cmd": "./check build",
 "hooks": {"guard": "cfg(snapcd_verif)", "enable": "RUSTFLAGS=\"--cfg snapcd_verif\" (set in env.sh, used by ./check)",
           "source_commits": ["b1771361722aafff25da2922e825cee77f2bef3a"]},
 "checks": [], "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in checks:
        l, t, n = checks[i]
        out["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                              "technique": "model checking: " + t, "level": l, "level_note": n})
    else:
        out["not_applicable"].append({"property": i, "reason": "no check yet"})
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks")
