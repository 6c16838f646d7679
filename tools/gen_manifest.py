#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
TECH = {
 "C01": "property-based testing: generated signals, differential against the crate's WAV codec and an independent reference codec",
 "C02": "property-based testing: generated signals and levels, analytic error bound per sample, differential for levels above 10",
 "C03": "property-based testing: generated partitions, metamorphic relation between partitions, model of the return value",
 "C04": "stateful property-based testing: generated histories with save points, differential of the loaded and the original codec",
 "C05": "stateful property-based testing: generated read and rewind sequences against a vector-and-position model",
 "C06": "stateful property-based testing: generated seek histories, suffix relation to sequential decoding",
 "C07": "stateful property-based testing: generated chains of re-encodes, differential against a fresh codec",
 "C08": "stateful property-based testing: generated histories, count model",
 "C09": "property-based testing: generated streams and states, bound compared with the length really saved",
 "C10": "structure-aware mutation fuzzing of .adhoc files, crash, allocation and boundedness oracle",
 "C11": "fault injection over generated files: every cut point, failing and short-transfer readers and writers enumerated per file",
 "C12": "property-based differential testing both ways against an independent encoder and decoder of the layout",
 "C13": "property-based testing: generated signals, analytic bound on the bits used",
 "C14": "property-based testing: generated call sequences run alone, interleaved and on concurrent threads, byte comparison",
 "C15": "property-based testing: generated samples, independent RIFF parser and round trip",
 "C16": "property-based testing: independent RIFF writer with generated chunks, independent sample oracle",
 "C17": "structure-aware mutation fuzzing of WAV files, crash, allocation and boundedness oracle",
 "C18": "stateful property-based testing against an array-and-position model",
 "C19": "property-based testing: generated file sets converted by the real binary in a scratch directory, differential against the library",
 "C20": "stateful property-based testing against a list-of-values model",
 "C21": "stateful property-based testing of every container against a standard-library model",
 "C23": "property-based testing: generated streams and tasks, metamorphic relation between the cost of a task and of one eight times its size",
 "C24": "stateful property-based testing: a list model of the frame table, generated orders of frames from several codecs decoded in order and singly",
 "C22": "property-based testing against definitions evaluated in f64, differential and metamorphic relations",
}
NOTE = {}
NOTE_DEFAULT = "Random search with shrinking; establishes no absence beyond what was generated. Trusts the independent oracle in /verif/harness and runs the real code with overflow and debug assertions on."
NOTE["C11"] = "For each generated file every cut point and every position of a failing reader or writer is tried (sampled beyond a few thousand bytes); the files themselves are sampled. Faults are injected through the Read/Write traits; no real disk is involved."
NOTE["C14"] = "Thread schedules are those the operating system happens to produce, not enumerated; the interleavings on one thread are generated."
NOTE["C10"] = NOTE["C17"] = NOTE_DEFAULT + " Each case runs in a worker process with a counting allocator, so an abort or runaway allocation is attributed to its input; and so is a case that does not end."
NOTE["C19"] = NOTE_DEFAULT + " The real binary is run on files in a scratch directory."
NOTE["C23"] = "Processor time of one thread, the least of up to 12 measurements; a super-linear step is reported when eight times the audio takes more than 24 times the time plus 4 ms, so a step whose share is smaller goes unnoticed. Memory is counted by the allocator of the harness."
FUZZ = " A second stage lets a coverage-guided fuzzer choose the random numbers of the same generators for 12 s (900 s in the thorough tier); its amount of work depends on the machine, and a failure counts only if the ordinary build fails on the same case."
IDS = ["C%02d" % i for i in range(1, 25)]
m = {
 "version": 1,
 "setup_cmd": "bash run.sh build",
 "hooks": {"guard": "adhoc_verif", "enable": "RUSTFLAGS=\"--cfg adhoc_verif\" (only the checks C20, C21 and C22 and the fuzz targets need it; run.sh and fuzz/Cargo.toml set it)",
           "source_commits": ["c967c1e"]},
 "checks": [{
   "property": i,
   "quick_cmd": "bash run.sh %s" % i,
   "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s" % i,
   "technique": TECH[i] + ("" if i in ("C19", "C23") else "; then coverage-guided fuzzing (libFuzzer) of the same generators and oracle"),
   "level": "fault_enumeration" if i == "C11" else "exploration",
   "level_note": NOTE.get(i, NOTE_DEFAULT) + ("" if i in ("C19", "C23") else FUZZ),
 } for i in IDS],
 "not_applicable": [],
}
import sys
skip = set(sys.argv[1:])
m["checks"] = [c for c in m["checks"] if c["property"] not in skip]
m["not_applicable"] = [{"property": s, "reason": "check not built yet"} for s in sorted(skip)]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(m, open(out, "w"), indent=1)
open(out, "a").write("\n")
