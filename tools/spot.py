#!/usr/bin/env python3
"""Try single candidate bugs, each against the check of one property.

  tools/spot.py CANDIDATES.py OUT.jsonl WORKERS

CANDIDATES.py defines B = [(id, "C14 [C12 ..]", file, old, new[, occurrence]), ...]; a list of
(file, old, new[, occurrence]) as third entry makes a change at several places. Stable tests first,
as in mutate.py. Used while strengthening the checks; no check uses it.
"""
import json
import os
import re
import runpy
import subprocess
import sys
import threading

sys.argv, args = [sys.argv[0]], sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as mu

mods = runpy.run_path(args[0])["B"]
out = args[1]
done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
todo = [m for m in mods if m[0] not in done]
lock, log = threading.Lock(), open(out, "a")


def put(R, edits):
    for e in edits:
        p = os.path.join(R, e[0])
        t = open(p).read()
        n = e[3] if len(e) > 3 else 1
        if t.count(e[1]) < n or (len(e) <= 3 and t.count(e[1]) != 1):
            return f"{e[0]}: {t.count(e[1])} x {e[1]!r}"
        at = -1
        for _ in range(n):
            at = t.index(e[1], at + 1)
        open(p, "w").write(t[:at] + e[2] + t[at + len(e[1]):])


def worker(k):
    V, R, env = mu.prepare(k)
    while True:
        with lock:
            if not todo:
                return
            m = todo.pop(0)
        edits = m[2] if isinstance(m[2], list) else [m[2:]]
        res = put(R, edits)
        if res is None:
            res = None
            if any(not e[0].startswith(("src/file/", "src/mesher/", "src/main.rs")) for e in edits):
                res = mu.stable(V, env)
            for c in m[1].split() if res is None else []:
                rc, o = mu.run(["./check", c], V, env, 600)
                fam = re.findall(r"^violated: (.*)$", o, re.M)
                res = f"killed {c}: {fam[0][:100] if fam else ''}" if rc == 1 and f"VIOLATION property={c}" in o else f"nocompile {o[-1500:]}" if "cannot build" in o else f"SURVIVED {c} rc={rc}"
                if not res.startswith("killed"):
                    break
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
        with lock:
            log.write(json.dumps(dict(id=m[0], result=res)) + "\n")
            log.flush()
            print(m[0], res[:200], flush=True)


ts = [threading.Thread(target=worker, args=(f"s{k}",)) for k in range(int(args[2]))]
[t.start() for t in ts]
[t.join() for t in ts]
