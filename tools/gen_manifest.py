#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks and the reasons below."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
 "C30": "Equality of decoded and encoded values is decided inside encoding/json and encoding/gob (reflection over run-time types) and depends on the user's types; no static argument over this repository's source bounds it. C29 decides the structural part: the codec hands exactly the received payload to the decoder and passes on what it returned.",
 "C31": "Quantifies over wall-clock time, scheduler latency and time.Sleep; nothing in the source bounds these. The structural part (who is monitored, renewed, removed, closed) is decided by C16.",
 "C32": "Liveness under back pressure depends on the speed of consumers outside the repository and on goroutine scheduling; blocking sends into bounded queues are by design and no static argument bounds their duration. C17 decides the part visible in the source: no lock is held across such a send.",
}
TECH = {}
here = subprocess.run([os.path.join(root, "bin/ustackverif"), "-list"], capture_output=True, text=True).stdout
claimed = {}
for l in here.splitlines():
    i, t, n = l.split("\t")
    claimed[i] = (t, n)
checks, na = [], []
for i in props:
    if i in claimed:
        t, n = claimed[i]
        checks.append({"property": i, "quick_cmd": "bash tools/check.sh " + i,
                       "thorough_cmd": "VERIF_TIER=thorough bash tools/check.sh " + i,
                       "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks, "not_applicable": na,
     "notes": "One analyzer (analyzer/, Go, x/tools vendored) decides all properties from the SSA form of /repo's current source; nothing of /repo is executed. No hooks are needed in /repo. Thorough tier: the same analysis for five GOOS/GOARCH configurations."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
