#!/usr/bin/env python3
# Writes /verif/MANIFEST.json
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "stateless exhaustive exploration (model checking of the real code) under a simulated kernel: "
D = {
"C01": "all request sequences up to a depth against a reference map",
"C02": "all interleavings of request parts of concurrent connections, linearizability search per execution",
"C03": "all segmentations of request streams, compared with the unsegmented answers",
"C04": "all short-write choices at the first writes of every exchange, compared byte by byte",
"C05": "all token sequences up to a bound from a malformed-request grammar",
"C06": "all abort kinds at every byte of an upload",
"C07": "all cycles of operations up to a depth, resources compared after everything is closed and deleted",
"C08": "all request sequences up to a depth against a model of the statistics",
"C09": "all sequences of time steps and requests around expiry boundaries",
"C10": "all insert/read/delete sequences against a model of the eviction order",
"C11": "all listing histories up to a depth, including paging sweeps and slow readers",
"C12": "all request sequences over names with equal 32-bit hashes, and over file-name collisions",
"C13": "all request sequences around one or two restarts against a reference map",
"C14": "a kill at every file operation (and in the middle of writes) of every request sequence, then a restart",
"C15": "all orders of requests, save triggers and steps/ends/failures of the save process",
"C16": "all orders of monitoring clients, cache traffic, stalls and time steps against the exact expected line sequence",
"C17": "all thread interleavings up to a preemption bound, at every memory access of the shared connection code",
"C18": "a termination signal before every simulated system call of request sequences",
"C19": "all operation sequences on the ring buffer up to a depth against a byte-queue model",
"C20": "all option strings of a bind-list grammar against the listeners that result",
"C21": "an error or short result at every file/socket/process call of request sequences, then recovery",
"C22": "all interleavings of starts, ends and kills of up to three server processes sharing a pid file or addresses, up to a preemption bound",
}
NOTE = {}
done = set(sys.argv[1:]) if len(sys.argv) > 1 else set(D)
checks = [dict(property=k, quick_cmd=f"engine/check.sh {k} quick", thorough_cmd=f"engine/check.sh {k} thorough", evidence_file=f"evidence/{k}.json",
    technique=T + D[k], level="model_checking", level_note="exhaustive within the bounds of the driver's scenarios (listed per property in DESIGN.md and counted in the evidence file); every explored execution runs the real scache sources") for k in D if k in done]
na = [dict(property=k, reason="the driver for this property is being written") for k in D if k not in done]
m = dict(version=1, setup_cmd="engine/build.sh all", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
