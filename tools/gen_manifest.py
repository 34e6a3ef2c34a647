#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
COMMON = ("Seeded search, not proof: a clean batch says no run of that batch broke the property. Simulated: clock, entropy, scheduling of tasks and threads, "
          "network, block store, failing keys. Trusted: the harness's own reference model and JWT codec, the crypto and codec crates, rustc. ")
NOTES = {
 "C01": "Generated delegation DAGs of honest and dishonest principals; every reported originator is checked against an independent reference model of the delegation rules (harness/src/model.rs).",
 "C02": "As C01, checking the other direction: every originator the model entitles a claimed capability to must be reported.",
 "C03": "Generated DAGs with zero, one or several link defects at any position; the verdict and the accepted chain's shape are compared with the model.",
 "C04": "Alterations of honest tokens in transit and at rest (bits, characters, segments, fields of structured forms) for Ed25519, P-256, RSA and a toy key; an accepted token must be one an issuer signed. Assumes signature schemes are unforgeable.",
 "C05": "Stores which misdirect, corrupt, truncate or lose blocks during verification; tokens cited under every supported hash function.",
 "C06": "Verifiers and issuers on separate simulated clocks which skew, jump and tick between operations; bounds placed around the boundary seconds. Clocks before 1970 are outside the property.",
 "C07": "Store, key and key-construction faults, stalls and cancellation at drawn points of issuing and verifying; afterwards the operation is retried without faults and compared with the fault-free result.",
 "C08": "Hostile documents, tokens signed by hostile peers, corrupt stored blocks; panics, process death, hangs, oversized allocation and unbounded reads are violations. Nesting and chain depth are bounded as the property says.",
 "C09": "Sequences of hops (text, object and IPLD forms, stores that crash and restart, duplicated and delayed deliveries) for library-issued and foreign tokens.",
 "C10": "Real threads parked and released one at a time at allocations, lock waits and decoding steps; histories judged by a linearizability checker for a content-addressed map. Preemption between two such points is not explored.",
 "C11": "Histories of builder calls, clones, builds and signings by several issuers with slow and failing signers, judged against the recorded requests.",
 "C12": "The same token verified by a fresh parser, by a long-lived one, and by concurrent verifiers must get the same verdict and authority at the same time.",
 "C13": "Valid DAGs of all key types delivered out of order, duplicated, delayed and shared; every entry point must accept, within a bounded number of polls once store and keys answer.",
 "C14": "A faulty block store with crash and restart under the token interface, and the real MemoryStore; each answer is judged against what the store held or delivered for that very call.",
}
checks = [dict(property=k, quick_cmd=f"./run.sh check {k}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh check {k}",
    evidence_file=f"evidence/{k}.json", technique="deterministic simulation with fault injection (seeded search over schedules and faults)",
    level="exploration", level_note=COMMON + v) for k, v in NOTES.items()]
na = {
 "C20": "A pure relation on values: no schedule, clock, fault or party. It is not a simulation target (its observable consequences for delegation are covered by C01 and C02).",
 "C21": "A pure conversion of a document: no schedule, clock, fault or party. Panics on such documents are covered by C08, their preservation in tokens by C09 and C11.",
 "C22": "Two constant tables: nothing nondeterministic to simulate. Their use on real tokens is covered by C09.",
 "C23": "Needs a browser's WebCrypto (wasm32 only); neither a browser nor the wasm target is available here, and a stub of WebCrypto would decide nothing about it.",
}
m = dict(version=1, setup_cmd="./run.sh build", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in na.items()],
    notes="No hooks in /repo: every seam used already exists (UcanStore, KeyMaterial, DidParser constructors, explicit times) or lies at the libc boundary inside the simulator's own binary. Replay: ./run.sh replay <file>.")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
open(out, "w").write(json.dumps(m, indent=1) + "\n")
