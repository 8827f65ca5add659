#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
TRUST = ("Trusts TLC, the in-memory stand-in for the operating system's files, the abstraction of recorded values in the driver, "
         "and that the histories explored are representative. ")
T = {}


def claim(p, tech, note):
    T[p] = (tech, note)


KVT = "TLA+ design model checked with TLC; histories enumerated by TLC from the specification and random ones are run on the real store and their traces validated by TLC against the specification"
claim("C01", KVT, "Exhaustive for the design within small constants and for short histories; sampled for long ones over all parameters. " + TRUST)
claim("C02", KVT, "As C01, with every key inserted again in every position (pending, bucket, chain, earlier session). " + TRUST)
claim("C08", KVT, "The index invariant of the specification is evaluated by TLC on the decoded files after every commit. " + TRUST)
claim("C09", KVT, "The growth law of the specification is evaluated on every commit. " + TRUST)
claim("C11", "trace validation with TLC of rekey runs against the index specification", "Index invariant, equivalence and parameters evaluated after every rekey, over all parameters. " + TRUST)
claim("C13", "trace validation with TLC: verify's figures against the figures the specification derives from the decoded files", "Both algorithms, several buffer sizes, databases from histories with rekeys. " + TRUST)
claim("C15", "trace validation with TLC of visits, complete, stopped and of files cut at every kind of position", "Sampled databases. " + TRUST)
claim("C20", "trace validation with TLC: every file access of a fetch against the chain the specification prescribes", "Sampled histories, all parameters. " + TRUST)
CRT = "crash-point enumeration on the real library over a simulated file system; observations validated by TLC against the TLA+ crash specification"
claim("C04", CRT, "Every interruption point of the generated histories (each file operation, torn or not). Crash model in DESIGN.md. " + TRUST)
claim("C05", CRT, "Recovery itself interrupted at each of its operations, repeatedly, in commits and rekeys. " + TRUST)
claim("C06", "fault enumeration on the real library over a simulated file system; observations validated by TLC against the TLA+ specification", "One failing operation (every one of each history), transient or lasting, short writes included. " + TRUST)
claim("C07", CRT, "Power loss: any prefix of the unsynced log writes, sampled subsets of the unsynced key and data writes. " + TRUST)
claim("C12", CRT, "Every interruption point of generated rekeys, and of the recovery that follows. " + TRUST)
claim("C14", "trace validation with TLC: altered files are decoded and TLC decides from the format specification which alterations must be reported", "Sampled alterations at every structural position. " + TRUST)
claim("C16", "trace validation with TLC of create over the parameter space and every single file fault", "Sampled parameters at all boundaries. " + TRUST)
claim("C17", "trace validation with TLC of open, recover, verify, visit and rekey on every header alteration and file swap", "All single alterations of the list, sampled pairs. " + TRUST)
claim("C23", "trace validation with TLC: every run of the command line tool (exit status, printed figures, files) against the specification of the database and of the tool", "Sampled databases, kills and arguments. " + TRUST)
claim("C24", "trace validation with TLC of the delay of each insert and of the library's live memory, under a virtual clock, against a specification of pacing and of memory", "Sampled histories, sizes, burst sizes and speeds. Rates are compared with a margin of 2 percent. " + TRUST)
claim("C25", "trace validation with TLC: every use of a File, Hasher, Progress or callback object against a specification of what its documentation allows", "Sampled histories, faults and kills, all parameters. " + TRUST)
claim("C22", KVT, "Open and close histories, all parameters sampled. " + TRUST)
CT = "executions of the real multi-threaded code under a deterministic scheduler, every schedule's history and file accesses validated by TLC against the TLA+ linearizability / context / reader-progress specification"
claim("C03", CT, "Design model checked exhaustively at small constants. Random, priority-based and enumerated schedules of generated programs; data races and uses after free reported by a happens-before monitor over the library's own accesses. Sequentially consistent memory. " + TRUST)
claim("C18", CT, "Design model checked exhaustively at small constants. Shutdown, flush_all and run/stop histories; lost wake-ups and dead locks are states in which no thread can run. " + TRUST)
claim("C19", CT, "Design model checked exhaustively at small constants. A fetch held inside its key-file read while commits, bucket-table growth and generation changes are attempted. " + TRUST)
claim("C10", "TLC decodes every byte of files the library wrote with a TLA+ transcription of the documented format, and writes files from that specification which the library must read", "Sampled parameters and histories; every header field, record and bucket. " + TRUST)
claim("C21", "TLC enumerates the behaviours of a TLA+ model of the file layer (every short sequence of partial transfers, interruptions and errors); they and random ones are replayed into the real posix_file on a virtual kernel and the system calls and results validated by TLC", "Exhaustive for one transfer with up to five answers; sampled for histories of several files, transfers beyond 4 GiB, and stores on an interrupting kernel. Linux semantics of O_APPEND. " + TRUST)
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 tools/check.py %s" % p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": T[p["id"]][0], "level": "model_checking", "level_note": T[p["id"]][1]}
                for p in props if p["id"] in T],
     "not_applicable": [{"property": p["id"], "reason": "no check has been built yet"} for p in props if p["id"] not in T],
     "notes": "Specifications in spec/ (TLA+, checked with TLC); drivers in harness/ compiled from /repo/include at every run; no hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
