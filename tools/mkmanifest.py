#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T="seeded deterministic simulation with fault injection, answers checked against a reference model"
notes={
"C01":"Sampled build histories, power loss right after success and concurrent readers; every record of every store compared with the model.",
"C02":"Crash, power loss, process kill, I/O error, full disk and stall at sampled storage operations of a build, with retries, readers and rival builders; what is left is compared key by key with the model.",
"C03":"I/O errors at sampled storage operations of builds and of all read calls; an answer must be an error or complete. Thirteen listed known findings (iterator errors the pinned storage binding cannot report, the flush at the end of a build) are reported and do not fail the check.",
"C04":"Sampled data, requests, callers and interleavings; every match list is compared entry by entry with an independent definition.",
"C05":"Sampled data, requests and interleavings against an independent model of the single coalesce; answers whose content depends on ties the code leaves open are checked for soundness and order only.",
"C06":"As C05 for several subqueries over stores at different zooms.",
"C07":"Sampled worlds of stores and phrase matches run under several simulated thread-pool sizes and schedules, compared with a sequential model of stacking.",
"C08":"Two different histories of the same data built and compared; stored bytes compared when the calls are the same; renumbering against the model.",
"C09":"Sampled listings, interleaved, abandoned and concurrent, compared with the model.",
"C10":"Every store with boundaries is compared with the model and with the same data stored without boundaries; power loss after success.",
"C11":"Counts storage operations and stacks per call against bounds derived from the model; every run must end within a step and processor limit.",
"C12":"Transient errors, callers that panic with an iterator open, and directories replaced by another build, followed by judged calls on the same and on fresh handles.",
"C13":"Each workload is run under three or more schedules, pool sizes, hash seeds and latencies, and all answers are compared bit for bit.",
"C15":"The real addon code runs on a simulated JavaScript heap, event loop and task pool (no JavaScript engine); sampled programs with several calls in flight, garbage collections, wrong calls and storage faults are compared with the model.",
"C17":"The builder and the store of the pinned commit (kept in sim/before) and those of the working tree take turns in the roles of builder, retrying builder, rival, concurrent reader and final reader of one simulated directory, with crashes and power loss; every answer is compared with the model.",
"C16":"The real addon code runs over a stand-in for the fuzzy-phrase crate, whose sources are not available: what is decided is the binding and its use by the grid store builder, not how phrases are found.",
}
checks=[]
for i in list(range(1,14))+[15,16,17]:
    p=f"C{i:02d}"
    checks.append(dict(property=p,quick_cmd=f"./check.sh {p} quick",thorough_cmd=f"./check.sh {p} thorough",technique=T,level="exploration",
      level_note=notes[p]+" Sampling, not proof; trusts the simulated storage engine and thread pool (stubs of rocksdb 0.12.3 and rayon) and the model."))
na=json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"not_applicable.json")))
m=dict(version=1,setup_cmd="./check.sh build",  checks=checks,not_applicable=na,
  notes="check.sh replay <file> replays a reported violation. CARMEN_SURVEY=1 lists all violations of a batch, CARMEN_CASES=n and VERIF_SEED change what is sampled. known_findings.txt lists the recorded defects.")
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","MANIFEST.json")
json.dump(m,open(p,"w"),indent=1); open(p,"a").write("\n")
