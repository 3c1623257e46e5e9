#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
EXPL = "exploration"
C = {}
def c(id, technique, note, level=EXPL): C[id] = (technique, note, level)

ref = "Judges every execution of the real code on a seeded workload of in-domain inputs; assurance is limited to the executions observed (counts in the evidence file). Trusts the independent f64 reference in the harness."
ind = "Judges every execution of the real code on a seeded workload; assurance is limited to the executions observed (counts in the evidence file). Trusts the independent format readers in the harness, and for JPEG and WebP pixels the jpeg-decoder crate and libwebp driven directly."
c("C01", "runtime monitor: save/open histories over every lossless option, read back through the library and through independent format readers", ind)
c("C02", "runtime monitor: produced files judged by independent header parsers and decoders, and by libwebp driven directly with the documented settings", ind)
c("C03", "runtime monitor: well-formed files with known pixels, prefixes, mutations and hostile headers decoded under a crash/hang observing parent process", ind)
c("C04", "runtime monitor with injected faults: failing, short, interrupted and zero-length writers and readers, and file system faults, around the real save and open calls", ind)
c("C05", "runtime monitor: format detection and extension parsing judged by a signature table and by what the bytes decode as", ind)
c("C06", "runtime monitor: pixel provenance oracle (every output pixel judged bit-identical to the source position the operation defines) plus group laws of flips and turns", ref)
c("C07", "runtime monitor: online comparison of every buffer operation with a plain array model, and recorded callback traces", ref)
c("C08", "runtime monitor: windows and kernel sums judged pixel by pixel by an f64 reference convolution", ref)
c("C09", "runtime monitor: weight invariants and an f64 reference convolution over generated images, plus symmetry relations", ref)
c("C10", "runtime monitor: every output pixel judged by an f64 evaluation of the filter at its source position", ref)
c("C11", "runtime monitor: every output pixel judged by an f64 evaluation of the filter at its back-rotated position", ref)
c("C12", "runtime monitor: round-trip oracle over generated colours, a dense lattice, conversion chains and iterator adaptors", ref)
c("C13", "runtime monitor: conversions of generated colours judged by an independent f64 reference and a continuity oracle", ref)
c("C14", "runtime monitor: equality, predicate, text and accessor oracles on values around the tolerance", ref)
c("C15", "runtime monitor: every adjustment judged by its f64 formula, range and alpha invariants", ref)
c("C16", "runtime monitor: metamorphic relations (neutral parameters, inverses, composition, idempotence, monotonicity)", ref)
c("C17", "runtime monitor: every blended pixel judged by the mode's f64 formula, coverage and alpha rules", ref)
c("C18", "runtime monitor: call log of the composing function judged pixel by pixel, injected errors at every position", ref)
c("C19", "runtime monitor: every output pixel judged by an independent f64 nearest search in Lab", ref)
c("C20", "runtime monitor: outputs judged by an f64 histogram model of equalisation, stretching and balance", ref)
c("C21", "runtime monitor: per-pixel rules of each noise plus statistical tests (rates, distributions, independence) with a 7.5 sigma alarm level", ref)
c("C25", "monitor over every operation: input unchanged, size rule, deterministic (twice, fresh copy, in place vs copy), accepted shapes, results savable and reopenable", ind)
c("C26", "online monitor: f64 / exact pixel models of despeckle, SNN, interlace; bit comparison of the JPEG simulation with save+open; drawing judged by its colour rule", ref)
c("C28", "online monitor: every documented name parsed and its effect observed in results and files (independent readers); mutated names refused with value and type", ind)
c("C29", "online monitor: f64 reference of the gamma, saturation and black-body temperature models against the real operations", ref)
c("C24", "ThreadSanitizer build of library, std and libwebp plus a plain stress build: results of threads over shared images and of first uses in new processes compared with a single thread", ind)
c("C27", "AddressSanitizer and MemorySanitizer builds of library, std and libwebp with live-allocation accounting around every call, failing writers and failing allocations", ind)
c("C22", "monitor of the real command line tool as a process and of the command queue: exit status, output, log and every written file compared with library calls in the same order; errors injected at every step", ind)
c("C23", "monitor of the real Python module in an interpreter of its own: values, objects, callback traces, exceptions, files and arrays of generated programs compared with library calls", ind)
c("C30", "monitor with faults injected at the system calls (short, interrupted and failing read and lseek) of the real open; the same bytes read from memory are the oracle, opened and closed descriptors are counted", "Judges every open on a seeded workload of files and fault plans; assurance is limited to the executions observed (counts in the evidence file). Trusts that reading from memory is right, which C01-C03 judge.")
c("C31", "online monitor: counting allocator and C heap statistics in processes of their own, judged after every repetition of the same calls (also failing and panicking ones), over ever new inputs, and at the peak of single calls", "Judges every process it starts, with seeded sequences of calls; assurance is limited to the executions observed (counts in the evidence file). Bounds (peak 14 times the images and files plus 8 MB, JPEG 36 times, 16 kB kept after 600 new inputs) are far above what the code needs.")
c("C32", "online monitor: every image of seeded random programs of operations is inspected after each step (size, finite channels, panics) and what it ends in is saved and reopened; conversions and adjustments of single colors in and out of range", ind)
c("C33", "online monitor with fault injection: writers, read calls, paths, sizes and files that fail in known ways; identity, code and text of the error compared with the cause through library, queue, command line and Python", ind)
na = {}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C:
        t, n, l = C[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "monitor not built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
