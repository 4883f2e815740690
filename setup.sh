#!/bin/bash
# Optional: pre-builds the sanitized libraries (every check also builds what it needs itself).
cd "$(dirname "$0")" && python3 - <<'PY'
import subprocess, json
conf = json.load(open("harness/harnesses.json"))
done = set()
for k, v in conf.items():
    for h in v.get("harnesses", []):
        if h["variant"] not in done and not h.get("tier"):
            done.add(h["variant"])
            subprocess.run(["./check", k, "quick", "--build-only"])
PY
exit 0
