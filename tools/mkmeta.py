#!/usr/bin/env python3
# writes MANIFEST.json and known-findings.json
import json,subprocess
T="deterministic simulation with fault injection: seeded search over "
tech={
"C01":T+"crashes, write failures, rollbacks and polling readers of a record log, judged by a reference codec",
"C02":T+"write failures at every byte and write, judged by incremental matching against a reference encoding",
"C03":T+"failed and torn writes, judged by the simulated writer's own account",
"C04":T+"crash points in stored records, judged by a reference decoder",
"C05":T+"storage damage, judged by a reference decoder with step and allocation budgets",
"C06":T+"decoder histories over data that ends anywhere, judged by a reference cursor",
"C07":T+"statement-level interleavings of caller threads with failing and panicking callbacks, judged by references, solo runs and the race detector",
"C08":T+"map enumeration orders and map histories, judged by a reference encoding",
"C09":T+"failure and reuse histories, judged by a reference codec",
"C10":T+"byte streams that end, fail and stall, judged by a reference reader",
"C11":T+"damaged variant streams and interleavings of readers sharing a definition, judged by a reference lookup",
"C12":T+"failure points inside user codecs, judged by the recorded calls and a reference encoding",
"C13":T+"write, reuse and read histories of the recorder, judged by a model",
}
note="No violation in the seeded runs of the stated workload, reproducible from the seed; each run executes the real library code built from /repo. Nothing is claimed for shapes, values, faults and schedules the runs did not reach. Trusts the reference model in /verif/model, the simulated devices, and the overlay that inserts yield points and redirects map enumeration and package sync."
na={
"C14":"Case conversion and hashing are pure functions of one string: no concurrency, time, I/O, faults or history for a simulation to vary. (C07 runs them from several simulated threads, C11 reads identifiers derived from them; neither decides what they return for every string.)",
"C15":"Text and JSON forms are pure functions of one value: no concurrency, time, I/O, faults or history to vary. (C07 calls them from several simulated threads and compares with a run alone.)",
"C16":"Identifier conversions are pure functions of one number: no concurrency, time, I/O, faults or history to vary. (C11 covers their use when variants are read.)",
}
checks=[{"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"evidence_file":"evidence/%s.json"%i,"technique":tech[i],"level":"exploration","level_note":note} for i in sorted(tech)]
m={"version":1,"setup_cmd":"./check.sh setup","checks":checks,
"not_applicable":[{"property":k,"reason":v} for k,v in sorted(na.items())],
"notes":"No hooks are committed in /repo: yield points, map enumeration and sync are substituted at build time by an overlay that /verif/instr writes from /repo's current files. Replay a violation with ./check.sh replay FILE."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
fixed=[
("C03","700ef14","Written counted bytes that the writer had refused"),
("C10","b43104f","lengths beyond 65535 or below 0 were written as other lengths, or not at all, without an error (also C01)"),
("C01","d7400c9","encoding a varint of ten bytes panicked"),
("C05","dea3e29","varints wider than the requested type were silently truncated (also C11: wrong variant picked)"),
("C06","f043281","SetPosition beyond the range of int made the position negative"),
("C05","98ec851","decoding into a nil pointer panicked instead of returning InvalidDecoderError"),
("C01","fb8fc9d","optional non-pointer fields with a codec could not be read back"),
("C01","211a3e0","Borsh fields with a codec ignored their option and byte-order tags when decoding"),
("C01","11105f8","Borsh enum variants that are not structs were written as nothing, and a nil variant pointer panicked (also C12)"),
("C08","da7f155","encoding a Borsh map with keys of a named 64-bit integer type panicked (also C01)"),
("C01","ebaa712","the count of a sizeof slice behind a Borsh pointer was written twice"),
("C09","eab593e","maps and Borsh slices transmitted empty left the target's old entries in place"),
("C05","ab8220e","negative or oversized sizeof counts panicked or allocated without limit"),
("C13","9e5872c","the recorder kept the caller's buffer instead of a copy"),
("C01","b1981d8","Int64, Uint64 and JSONFloat64 outside a struct field panicked (also C09)"),
("C09","b475725","field options of one value leaked into the next call's codecs (also C12)"),
("C12","2f855a3","reading a variant replaced the payload codec's error (also C11)"),
("C05","35b4a8d","errors in deeply nested input took memory quadratic in the depth"),
("C05","d08fe6d","deeply nested input overflowed the stack and ended the process"),
("C15","c8683f5","128-bit JSON text: panics on hex and on numbers over 128 bits, lost sign, reversed bytes (found by C07's workload)"),
("C15","eeb4f85","String and JSON of negative Int128 values (found by C07's workload)"),
]
json.dump([{"property":p,"status":"fixed","commit":c,"what":"fixed: property=%s %s %s"%(p,c,w)} for p,c,w in fixed],open('/verif/known-findings.json','w'),indent=1)
