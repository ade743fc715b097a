"""One interpreter process of C18: runs histories, each in a fork of the pristine process.

usage: python -m vt.det_worker BATTERY JOBS OUT   (JSON files)
"""
import hashlib
import json
import os
import signal
import sys


def main():
    with open(sys.argv[1]) as f:
        battery = json.load(f)
    with open(sys.argv[2]) as f:
        jobs = json.load(f)
    from vt.detlib import run_history
    if len(sys.argv) > 4:
        os.chdir(sys.argv[4])
    with open(sys.argv[3], "w") as f:
        for job in jobs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    signal.alarm(30)
                    res = [[c, m, hashlib.sha256(s.encode("utf-8", "surrogatepass")).hexdigest()[:24], s[:160]]
                           for c, m, s in run_history(battery, job)]
                    with os.fdopen(w, "w") as g:
                        g.write(json.dumps(res))
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            with os.fdopen(r) as g:
                data = g.read()
            os.waitpid(pid, 0)
            f.write(json.dumps({"id": job["id"], "res": json.loads(data) if data else None}) + "\n")


main()
