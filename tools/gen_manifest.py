#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
NOTE = {
"C01": "2..5 parties relay transactions over a lossy, damaging network with crashing relays; every delivery is compared with an independent reference parser.",
"C02": "connections with reused receive buffers and tasks that edit, extend, serialise and scribble, preempted at any statement; every live transaction is compared with a model after every step.",
"C03": "streams of records cut into arbitrary pieces, stalls, resets and reader crashes; every partial record must be refused and every whole one recovered.",
"C04": "a coordinator and 1..4 signers with crashes, loss, repetition and reordering; every signature is verified against a reference signature hash; progress is required once faults stop.",
"C05": "2..20 signings, edits and undos in network order with crash recovery; every signature is checked against a coverage table and a reference digest after every step.",
"C06": "spent scripts arrive lost, repeated, reordered and damaged while several keys sign automatically; every result is compared with a model byte for byte.",
"C07": "internal and external signers that fail at chosen points, slow and retried; the transaction is compared with a model after every request.",
"C08": "2..4 cosigners collect keys over a network that loses, repeats, reorders and damages them, with crash recovery and interleaved reads; scripts, hashes and addresses are compared with a reference.",
"C09": "2..6 threads call the exported API on shared objects in a seeded statement-level interleaving; results are compared with sequential ones, argument memory with its former content, and a second pass runs the same under the race detector.",
"C10": "a pool and 1..4 miners exchange jobs and shares over a faulty network with pool crashes; coinbase, Merkle root, header, target and validity are compared with a reference block.",
"C11": "archives send Merkle proofs over a network that damages, reorders and mixes them up; verdicts are compared with a reference verifier.",
"C12": "payees' addresses reach payers intact or damaged; every way of accepting and paying is compared with a reference decoder, and built transactions with a model.",
"C13": "BIP276 texts are delivered or read back from disks intact or damaged and compared with a reference decoder.",
"C14": "1..5 parties encrypt against one simulated randomness source that splits, delays, cuts off and refuses reads; every initialisation vector is traced to the bytes delivered to its call.",
"C15": "a writer with a disk that loses and tears writes and readers sharing stored bytes, preempted at any statement; every decryption is compared with what was written and shared bytes with their former content.",
"C16": "scripts are delivered or read back from disk intact, cut, extended, altered or spliced and every inspection is compared with a reference tokenizer and classifier.",
"C17": "publishers append data in histories with failing appends and reused buffers, relays carry them over a faulty network; every reader compares every item, and prefixes are checked to be minimal.",
"C18": "builders apply 4..30 steps whose details arrive damaged, repeated and reordered, crashing and resuming from disk; the transaction is compared with a model after every step.",
"C23": "2..4 wallets pay each other, pay jointly and try to steal over a faulty network with crashes, relays that redirect payments and encrypted key files; an independent ledger judges every payment and block, and coins and value are compared at the end.",
"C24": "4..40 questions to handlers of an old process and to a process that starts anew after every crash, over a faulty network; repeated and nearly equal questions; callers overwrite what they own; answers are compared.",
}
TRUST = " Assurance: a seeded sample of executions, each exactly repeatable, not all of them. Trusted: the reference models in sim/ref, the Go standard library, bsvd/bsvutil, and the statement-level instrumentation (compiled in from an overlay, no behaviour of its own)."
NA = {
"C19": "Pure functions of one byte string: no schedule, clock, fault, crash or history takes part, so a simulator has nothing to decide; what remains is comparing values with a standard, which is input generation.",
"C20": "Pure arithmetic on one or two numbers: no schedule, clock, fault, crash or history takes part (the crash and error behaviour on malformed targets delivered by a node is decided under C10).",
"C21": "A pure function of one text or script: no schedule, clock, fault, crash or history takes part (crashes of ToASM on damaged scripts are decided under C16).",
"C22": "Pure functions of one or a few byte strings: no schedule, clock, fault, crash or history takes part (their freedom from data races and argument writes is decided under C09).",
}
m = dict(version=1, setup_cmd="bash tools/setup.sh",
  hooks=dict(guard="none in /repo: the yield points exist only in a go build -overlay of /repo's working tree that sim/cmd/instr generates for each check",
             enable="tools/build.sh (sourced by check.sh): instrument /repo's sources into a scratch overlay, go build -overlay", source_commits=[]),
  checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append(dict(property=i, reason=NA[i])); continue
    m["checks"].append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",
        technique="deterministic simulation with fault injection (seeded search over schedules and fault sequences"+("; race-detector pass over the same simulated schedules" if i=="C09" else "")+")",
        level="exploration", level_note=NOTE[i][0].upper()+NOTE[i][1:]+TRUST))
m["notes"] = "bash replay.sh FILE replays the file a VIOLATION line names. known-findings.txt lists the defects found and repaired."
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
