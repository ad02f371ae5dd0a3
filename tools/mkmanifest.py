#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks that the harness defines."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
built = {}
for f in glob.glob(root + "/harness/*.go"):
    for m in re.finditer(r'checks\["(C\d\d)"\] = checkDef\{.*?level: "(\w+)"', open(f).read()):
        built[m.group(1)] = m.group(2)
T = {
"C01": ("generated images scanned by the real program, recorded index diffed against a model", "Every record of the index is compared with an independent writer of the disk format; sampled images."),
"C02": ("scan histories by the real program, index diffed against a union model", "Sampled histories of partial images; refusals checked for exit status and unchanged records."),
"C03": ("recorded trace of file operations (strace), crash states rebuilt from it and opened; kills at random moments", "Crash states are rebuilt at every operation boundary with several choices of unsynced writes at 4 KiB granularity; assumes fdatasync/fsync are honest and 4 KiB writes are atomic."),
"C04": ("file hashing and system-call tracing around every command; concurrent readers compared with lone ones", "Every command on generated file systems; writes to the inputs would show in hashes and in the trace of opens."),
"C05": ("differential monitor of lookups against a map model", "Sampled record sets with dense and extreme keys, all view generations around the recorded ones."),
"C06": ("differential monitor of iterations against a sorted model", "Sampled record sets and ranges; the key equal to the upper bound is not asked because the code documents it as excluded."),
"C07": ("Go race detector and answer comparison under concurrent queries", "Races are seen on executed pairs of accesses; schedules are sampled."),
"C08": ("differential monitor of address translation", "Sampled chunk layouts, first and last bytes of every chunk."),
"C09": ("differential monitor of path lookups against a component walk", "All paths and near-miss paths of sampled trees."),
"C10": ("output of the real ls parsed and compared with a model listing", "Sampled trees; blanks a name starts with cannot be told from the padding of columns."),
"C11": ("recovered tree walked and compared with the model byte by byte", "Sampled file systems with all extent kinds; single-device chunks only."),
"C12": ("recovery as an unprivileged user into hostile destinations, with sentinel trees outside watched by snapshots", "Sampled hostile names, targets and collisions; the sentinel trees are writable to the tool's user."),
"C13": ("before/after snapshots of pre-populated destinations", "Sampled destinations with files, links, hard links and special modes in the way."),
"C14": ("fault injection into image and metadata, warnings matched with the files that differ", "Truncated images, missing chunks, encoded extents, missing inodes, unreadable sectors through short images."),
"C15": ("FUSE protocol client (kernel emulation) comparing every reply with the model", "The kernel side is emulated through a stand-in fusermount; kernel caching is not part of it."),
"C16": ("FUSE protocol client reading random ranges, compared byte by byte with the model", "As C15; sampled offsets around every extent boundary."),
"C17": ("Go race detector and reply comparison under concurrent FUSE requests", "As C15; schedules are sampled."),
"C18": ("every mutating FUSE request sent, refusals and unchanged files observed", "As C15; all FUSE opcodes that change anything."),
"C19": ("report of the real identify compared with counts of the model", "Sampled images sampled completely, so that counts are exact."),
"C20": ("system-call trace of block reads and an id per block observed through the report", "Sampled device sizes up to beyond 1 PiB as sparse files, all options."),
"C21": ("mutation fuzzing of images through all commands under CPU and memory limits, with an oracle for undamaged files", "Sampled mutations; memory limit by address space, time by CPU seconds."),
"C22": ("differential decoding against a table of the disk format", "Random and extreme contents of every structure."),
"C23": ("round trip and reference parser on random texts", "Sampled texts."),
"C24": ("order axioms and index order monitored on random and grid keys", "Sampled triples plus a full grid of extreme values."),
"C25": ("fault-injecting reader whose log is the oracle", "All counts and error kinds for small blocks, sampled scripts, real files."),
"C26": ("numeric and metamorphic monitor", "Tolerance 1e-9."),
"C27": ("open attempts with file, folder and lock state observed", "All kinds of mismatch and damaged files; sampled combinations."),
"C28": ("random histories against a map model with crash copies of the file", "A crash is the process dying (the file as the page cache has it); power loss is in C03."),
"C29": ("output of the real dump-index compared with the model line by line", "Sampled and fixed index sizes including empty."),
"C30": ("refused command lines with exit status, files and folders observed", "An enumerated table of bad arguments per command on sampled inputs."),
"C31": ("differential monitor against bit-by-bit CRC-32C", "All lengths up to 300, sampled contents, all two-byte names."),
"C33": ("recorded histories of concurrent processes and threads checked for a sequential order", "Sampled schedules with injected delays; a killed scan of several transactions is left out of the judgement."),
"C34": ("lifecycles of the mount process under signals, refused unmounts and hang-ups, with lock, exit status and replies observed", "The kernel and fusermount are emulated; the moments of signals are enumerated coarsely and sampled within."),
"C35": ("system-call fault injection (strace) with exit status, messages and results observed", "Faults at random positions of every kind of call that touches image, output or recovered files; errors the kernel itself hides are out of reach."),
"C36": ("metamorphic comparison of repeated runs of every command in varied environments and forms", "Sampled combinations; what depends on the kernel's terminal handling is not part of it."),
"C37": ("runs under a memory limit on images, extents and holes larger than it, against a model; disk usage monitor", "Limit of 256 MiB against sizes from 512 MiB to 15 TiB; the metadata itself is small."),
"C38": ("independent writer and reader of the metadata format run against the program", "Sampled metadata; the database library's own page format is trusted."),
"C39": ("processor time of the same command or library call on inputs that differ eightfold in one kind of object", "Sizes up to 160000 objects; growth below about threefold of proportional at these sizes passes."),
"C32": ("random operation sequences against a model", "Sampled sequences."),
}
checks, na = [], []
for l in open(root + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in built:
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + T[i][0], "level": built[i], "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check observes the real program or package API from outside. Genuine defects found are repaired by fix: commits, see known_findings.txt."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
