"""Plant a bug: python3 tools/plant.py SPEC.json  (development tool, not used by checks)

SPEC: list of {"id", "property", "needs", "what_it_breaks", "edits": [[file, old, new]],
"demo": python source}.  Works in a scratch copy of /repo; writes seeded/<id>/ after
confirming that the patch builds, passes the tests, and that the demo tells the trees apart.
"""
import json, os, shutil, subprocess, sys, tempfile

PY = "/opt/venv/bin/python"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300, **kw)


def plant(b):
    d = os.path.join(V, "seeded", b["id"])
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        r = tmp + "/r"
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{b['id']}: {s.count(old)} matches of {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], r).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(
            '#!/bin/bash\n# run with cwd = the repository\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what_it_breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        clean = run(["bash", d + "/demo.sh"], "/repo")
        bad = run(["bash", d + "/demo.sh"], r)
        env = dict(os.environ, PYTHONPATH=r)
        t = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], r, env=env)
        where = run([PY, "-c", "import htmltools; print(htmltools.__file__)"], r, env=env).stdout
        ok = clean.returncode == 0 and bad.returncode != 0 and t.returncode == 0 and where.startswith(r)
        msg = f"{b['id']} [{b['property']}]: clean={clean.returncode} bad={bad.returncode} tests={t.returncode}"
        if not ok:
            msg += "\n  " + (clean.stderr[-600:] if clean.returncode else "") + t.stdout[-800:] + where
            shutil.rmtree(d)
        return ("OK  " if ok else "BAD ") + msg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for b in json.load(open(sys.argv[1])):
    print(plant(b), flush=True)
