#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import check
T = {
 "C01": ("generated signing sessions against crypto/ed25519", "standard verifier and reference key arithmetic"),
 "C02": ("generated key generations against a big-integer reference", "reference arithmetic recomputes every output"),
 "C03": ("generated delivery schedules, metamorphic against in-order delivery", "the harness owns the schedule and each party's entropy"),
 "C04": ("fault injection in generated key generations, reference verdict", "a reference verdict says which contribution is invalid"),
 "C05": ("fault injection in generated signing sessions, reference verdict", "a reference verdict says which contribution is invalid"),
 "C06": ("generated misuse and misbehaviour, validity predicate on every output", "every emitted signature is judged by crypto/ed25519"),
 "C07": ("generated proofs and forgeries, differential against a reference verifier", "soundness is shown for the forgery families generated, not in general"),
 "C08": ("structured mutation and coverage-guided fuzzing, differential against a reference parser", "the thorough tier adds Go's native fuzzer"),
 "C09": ("model-based generation of hostile traffic against live sessions", "the honest result is recomputed from the session's own entropy"),
 "C10": ("stateful model-based testing of the session lifecycle", "the model counts deliveries per round"),
 "C11": ("stateful testing under a virtual clock", "time is testing/synctest's"),
 "C12": ("generated concurrent workloads under the race detector", "schedules come from the Go scheduler and generated pauses; only executed interleavings are judged"),
 "C13": ("generated configurations against the stated rules", "judged by a predicate on the configuration"),
 "C14": ("generated operation programs, differential against a big-integer reference", "reference follows RFC 9496"),
 "C15": ("generated encodings, differential against a reference codec", "reference follows RFC 9496"),
 "C16": ("generated signatures, differential against crypto/ed25519", "crypto/ed25519 is the standard"),
 "C17": ("generated encoding chains, round trip and use", "field by field comparison, then signing"),
 "C18": ("structured mutation and coverage-guided fuzzing of key files against a reference loader", "the thorough tier adds Go's native fuzzer"),
 "C19": ("generated entropy faults: recorded, flipped, short and failing sources", "every byte handed out is accounted for; statistical quality of the system source is not judged"),
 "C20": ("generated session endings, search of reachable memory for secrets", "copies outside the session's reachable memory (stack, freed heap) are not judged"),
 "C21": ("generated command lines and key files, end-to-end oracle", "runs the real binaries in scratch directories"),
 "C22": ("metamorphic: re-encoding at generated later points, shared against separate copies", "compares bytes and results"),
 "C23": ("stateful reuse of key material with snapshots", "deep comparison of the caller's values"),
 "C24": ("generated sessions with known nonces, differential against the FROST formulas", "nonces are recovered from the entropy the harness supplies"),
 "C25": ("generated sharings, algebraic laws and a big-integer reference", "degrees up to about 1000"),
 "C27": ("generated interleavings of several sessions in one process, each judged on its own inputs by a big-integer reference", "up to seven sessions over up to three groups, on one goroutine (C12 has several)"),
 "C28": ("generated pairs of values with the equality of their components as oracle", "lists of up to 42 components"),
 "C29": ("generated batches of genuine, duplicate, malformed and foreign messages with a twin session as oracle, also under a virtual clock", "groups of 2 to 60, batches up to a few hundred messages"),
 "C30": ("generated protocols and histories with a model of the round contract as oracle, under a virtual clock and from several goroutines", "1 to 6 parties, up to 5 rounds, histories of up to about 60 operations"),
 "C31": ("generated concurrent reads of shared values under the race detector, with the same reads alone as oracle", "two to five goroutines, up to eight operations each, executed interleavings only"),
 "C32": ("generated floods, session ends, encodings and operations with heap size, weak references and allocated bytes as oracle", "floods of up to 4000 messages, up to 1000 operations between two looks, limits of 64 and 32 KB"),
 "C33": ("generated sessions among hostile deliveries, refused key material and runs of the signer, with a search of everything emitted for the known secrets as oracle", "secrets are recognised in plain encodings (binary, hexadecimal, base64, decimal), not when transformed"),
 "C34": ("metamorphic: generated choices of values for one operation, execution counts of every basic block compared", "control flow only: table indices, memory access and the assembly of the field arithmetic are not observed"),
 "C35": ("generated values, differential against independent writers and readers of each form", "documents are compared as JSON values, in whatever order and layout"),
 "C36": ("metamorphic: generated traffic, histories, group sizes and encodings, execution counts of every basic block compared between little and much", "floods of up to 2000 messages, histories of up to 300 operations, groups of up to 72; growth is judged by generous factors, and what the runtime and the standard library do inside is not counted"),
 "C26": ("generated lists and texts, all 65536 IDs, against sets and big integers", "the ID part is exhaustive"),
}
m = {"version": 1, "setup_cmd": "python3 check.py setup", "hooks": {"guard": "none", "enable": "no hooks are needed: the checks drive the library through its packages", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Each quick command builds its test binary from /repo's working tree, runs eight seeded shards and writes evidence. Replay a saved case with: python3 check.py replay FILE"}
for k in sorted(check.P):
    m["checks"].append({"property": k, "quick_cmd": "VERIF_TIER=quick python3 check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k,
                        "evidence_file": "evidence/%s.json" % k, "technique": "property-based testing: " + T[k][0], "level": "exploration",
                        "level_note": "Sampled, not exhaustive; " + T[k][1] + "."})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
