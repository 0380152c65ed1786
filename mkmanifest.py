#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = {
    "C01": ("property-based round trip (write, read) over generated packets", "Values: all fields and property sets, lengths on both sides of every encoding boundary."),
    "C02": ("differential: crate encoder against an independent strict MQTT 5 decoder", "Trusts the reference decoder in core/src/refcodec.rs."),
    "C03": ("differential: independent MQTT 5 encoder (all legal forms and orders) against the crate's decoder", "Trusts the reference codec; inputs it calls lenient may be accepted or refused."),
    "C04": ("differential: damaged and random frames, reference verdict against the crate's", "Only structural malformation is judged; what the specification leaves to the receiver is not."),
    "C05": ("random, structured and mutated byte fuzzing with panic, overflow and suffix oracles", "Built with overflow checks and debug assertions (and once without); a case that does not return within 60 s or takes 3 GiB counts."),
    "C06": ("property-based: four reported sizes against the bytes written", ""),
    "C07": ("stateful: sequences of writes into one buffer against each packet alone", ""),
    "C08": ("property-based fault injection: unencodable values injected into generated packets", "Includes packets just below and above 256 MiB."),
    "C09": ("model-based histories: chunked arrival interleaved with reads against a one-shot reference", ""),
    "C10": ("property-based and exhaustive: every prefix of generated frames against the specification's framing", "Headers of up to three bytes are enumerated."),
    "C11": ("metamorphic: frame alone against frame in context", ""),
    "C12": ("property-based: limits around declared lengths, partial bodies", ""),
    "C13": ("metamorphic: decode, encode, decode fixpoint on generated and damaged input", ""),
    "C14": ("exhaustive enumeration of code bytes against specification tables, plus generated packets", "Trusts tables transcribed from the specification and the adapter naming each variant."),
    "C15": ("differential between four processes, one per string configuration", ""),
    "C16": ("property-based with a counting allocator", "The bound is 256 bytes per received byte plus 16 KiB; allocation by the conversion to the model is not counted."),
    "C17": ("property-based and boundary enumeration against a reference variable-length integer", ""),
    "C18": ("differential and exhaustive over section combinations of CONNECT", ""),
    "C19": ("property-based and exhaustive over identifiers and header bits of PUBLISH", ""),
    "C20": ("exhaustive table of short forms plus generated packets", ""),
    "C21": ("metamorphic: edit one property, permute properties", ""),
    "C22": ("differential between the crate's own entry points", ""),
    "C23": ("property-based and enumerated byte strings in every field against the standard library's UTF-8 check", ""),
    "C25": ("property-based: pairs of packets differing in one field, native == against the neutral model", ""),
    "C26": ("stateful: call sequences against each call alone in a fresh thread, repeated, reversed and concurrent", "Thread schedules are whatever the operating system gives; the crate has no lock or atomic to interleave at."),
    "C27": ("property-based: one quantity doubled up to 1 MiB (thorough 4 MiB), thread CPU time and allocation against linear bounds", "The constants (20 ms + 5 us per item + 50 ns per byte) are far above what any linear implementation takes; a superlinear cost too small to pass them at these sizes is not seen."),
    "C28": ("fault injection: one defect per legal frame, at every place and value, against a table of defect to error", "Only frames with a single defect are judged, so the order in which a reader looks at its fields does not matter."),
    "C29": ("stateful with a counting allocator: long services with fresh contents in every round, live bytes before and after", "512 bytes of slack; a leak per process rather than per call is not seen."),
    "C30": ("property-based fuzzing of Debug and Display with panic, emptiness and same-text oracles", "Does not ask for any particular text, except the numbers of size-limit and need-more errors."),
    "C24": ("exhaustive: 256 identifiers x 13 sections against table 2-4 of the specification", ""),
}
NOTE = ("Search, not proof: holds on every case generated from the seed (counts in the evidence file), in all four string "
        "configurations of the crate and in a release build without overflow checks; failures are shrunk to a minimal replay file. ")
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(line)["id"]
    tech, note = T[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"./check {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech,
        "level": "exploration",
        "level_note": (NOTE + note).strip(),
    })
m = {
    "version": 1,
    "setup_cmd": "./check --build",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the public API reaches everything. Replay a failure with ./check --replay FILE.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
