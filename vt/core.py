"""Framework: run TLC, record observations of the library, judge them, report."""
from __future__ import annotations

import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VT_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")


class Machinery(Exception):
    """A failure of the verification machinery itself (never of the library)."""


class CaseTimeout(BaseException):
    pass


LINE_MAX = 4_000_000        # bytes of one observation
TOTAL_MAX = 250_000_000
CHUNK_MAX = 60_000_000
ENOUGH = 400.0              # seconds after which a run that found violations stops judging
LIMIT = 860.0
MEMORY = 10 * 2 ** 30
_timeouts = 0


def _alarm(signum, frame):
    raise CaseTimeout()


def guarded(fn, limit=10.0):
    """Call into the library.  Returns (True, value) or (False, error-name)."""
    global _timeouts
    if _timeouts >= 3:
        limit = min(limit, 1.0 if _timeouts < 20 else 0.05)      # it hangs; don't wait for it again and again
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return True, fn()
    except CaseTimeout:
        _timeouts += 1
        return False, "timeout"
    except (Exception, SystemExit) as e:
        return False, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def cps(s) -> list:
    return [ord(c) for c in s]


def uncps(s) -> str:
    return "".join(map(chr, s))


def digest(s) -> list:
    """Code points of a string that is only compared with others: long ones are abridged."""
    if len(s) <= 300:
        return cps(s)
    return cps(f"{s[:60]} ... {len(s)} " + hashlib.sha256(s.encode("utf-8", "surrogatepass")).hexdigest())


def outrec(fn, limit=10.0) -> dict:
    """Record of a call that must return a string."""
    ok, v = guarded(fn, limit)
    if not ok:
        return {"ok": False, "s": [], "e": v}
    if not isinstance(v, str):
        return {"ok": False, "s": [], "e": "returned-" + type(v).__name__}
    return {"ok": True, "s": cps(v), "e": ""}


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self):
        self.generated = self.distinct = 0
        self.fails = []      # (line, pos, [clauses])
        self.cases = []      # decoded VT-CASE payloads
        self.infos = []
        self.error = None
        self.out = ""
        self.secs = 0.0


_SCRATCH = None


def scratch() -> str:
    global _SCRATCH
    if _SCRATCH is None:
        if os.environ.get("VT_DIGEST"):     # development: the name of the directory is in some observations
            _SCRATCH = os.path.join(tempfile.gettempdir(), "vt-digest")
            os.mkdir(_SCRATCH)
        else:
            _SCRATCH = tempfile.mkdtemp(prefix="vt-")
    return _SCRATCH


def cleanup():
    global _SCRATCH
    if _SCRATCH and os.path.isdir(_SCRATCH):
        shutil.rmtree(_SCRATCH, ignore_errors=True)
    _SCRATCH = None


def tla(v) -> str:
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise Machinery(f"cannot write {v!r} in a cfg")


_FAIL = re.compile(r'<<"VT-FAIL", (\d+), (\d+), \{([^}]*)\}>>')


def _limit():
    """Memory of this process, so that a library that runs away raises MemoryError."""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY if hard == resource.RLIM_INFINITY else min(MEMORY, hard), hard))


def _no_limit():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def run_tlc(module, init="JInit", next_="JNext", consts=None, subst=None,
            invariants=(), props=(), env=None, workers=8, timeout=840, simulate=None,
            heap="6g", extra=()):
    """Run TLC on spec/<module>.tla with a generated configuration."""
    d = tempfile.mkdtemp(dir=scratch())
    cfg = [f"INIT {init}", f"NEXT {next_}"]
    for k, v in (consts or {}).items():
        cfg.append(f"CONSTANT {k} = {tla(v)}")
    for k, v in (subst or {}).items():
        cfg.append(f"CONSTANT {k} <- {v}")
    for i in invariants:
        cfg.append(f"INVARIANT {i}")
    for i in props:
        cfg.append(f"PROPERTY {i}")
    cpath = os.path.join(d, "m.cfg")
    with open(cpath, "w") as f:
        f.write("\n".join(cfg) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + scratch(), "-cp", CP,
           "tlc2.TLC", "-deadlock", "-noGenerateSpecTE", "-fp", "1", "-seed", "1",
           "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
           "-config", cpath, *extra]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t0 = time.time()
    r = TlcResult()
    outp = os.path.join(d, "out")
    with open(outp, "w") as fo:
        try:
            p = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e,
                               cwd=d, timeout=timeout, preexec_fn=_no_limit)
        except subprocess.TimeoutExpired:
            raise Machinery(f"TLC timed out on {module}")
    r.secs = time.time() - t0
    tail, cases = [], []
    with open(outp, encoding="utf-8", errors="replace") as fo:
        for line in fo:
            if line.startswith('"VT-CASE '):
                cases.append(line)
            elif line.startswith('"VT-INFO '):
                r.infos.append(json.loads(json.loads(line)[8:]))
            elif '"VT-FAIL"' in line or tail and tail[-1].startswith('<< "VT-FAIL'):
                tail.append(line)
            elif not re.match(r"(Semantic|Parsing|Linting)", line):
                tail.append(line)
    cases.sort()        # TLC's workers print in any order; what follows is a function of the seed
    r.cases = [json.loads(json.loads(line)[8:]) for line in cases]
    r.out = "".join(tail[-4000:])
    joined = re.sub(r"\s+", " ", "".join(tail)).replace("<< ", "<<").replace(" >>", ">>")
    joined = joined.replace("{ ", "{").replace(" }", "}")
    for m in _FAIL.finditer(joined):
        cl = [x.strip().strip('"') for x in m.group(3).split('",') if x.strip()]
        r.fails.append((int(m.group(1)), int(m.group(2)), cl))
    if joined.count('"VT-FAIL"') != len(r.fails):
        raise Machinery("unparsed VT-FAIL lines:\n" + r.out[-2000:])
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
    if m:
        r.generated, r.distinct = int(m.group(1)), int(m.group(2))
    else:
        m = re.search(r"The number of states generated: (\d+)", r.out)
        if m:
            r.generated = r.distinct = int(m.group(1))
    if p.returncode != 0:
        r.error = f"TLC exit {p.returncode} on {module}:\n" + r.out[-6000:]
    shutil.rmtree(d, ignore_errors=True)
    return r


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.rng = random.Random(f"{prop}/{seed}")
        self.states = self.transitions = 0
        self.models = []
        self.validated = 0
        self.kinds = Counter()
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.notes = {}
        self.t0 = time.time()
        # wall-clock budget for optional exploration
        self.budget = float(os.environ.get("VT_BUDGET", "60" if self.quick else "600"))

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- model level -------------------------------------------------------
    def model(self, module, name=None, consts=None, invariants=(), init="Init",
              next_="Next", cases=True, min_states=2, **kw):
        """Model-check the specification; return the cases it emitted."""
        r = run_tlc(module, init, next_, consts=consts, invariants=invariants, **kw)
        if r.error:
            raise Machinery(r.error)
        if r.distinct < min_states:
            raise Machinery(f"{module}: only {r.distinct} states")
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"spec": name or module, "states": r.distinct,
                            "generated": r.generated, "invariants": list(invariants),
                            "cases": len(r.cases), "secs": round(r.secs, 1)})
        return r.cases

    # -- judging -----------------------------------------------------------
    def judge(self, module, verdict, lines, chunk=60000, heap="8g"):
        """lines: list of {"in":..., ...}.  'in' stays in Python; the rest is judged."""
        self._judge(module, {"Verdict": verdict}, lines, chunk, heap, lambda part: 64 + len(part))

    def judge_traces(self, module, start, step, lines, chunk=20000, heap="8g"):
        self._judge(module, {"StartOf": start, "StepOf": step}, lines, chunk, heap,
                    lambda part: 64 + sum(len(x["ev"]) + 2 for x in part))

    def _judge(self, module, subst, lines, chunk, heap, want):
        # Observations of a library that works are at most some 10^5 bytes.  What is far
        # beyond that is not a correct output of any of the (small) inputs; it is reported
        # as it is instead of being handed to TLC.
        text, total = [], 0
        for x in lines:
            t = json.dumps({k: v for k, v in x.items() if k != "in"})
            if len(t) > LINE_MAX or nesting(t) > 250:
                self.violations.append({"clauses": ["observation-of-unbounded-size"], "pos": 0, "line": shrink(x)})
                continue
            text.append((t, x))
            total += len(t)
            self.notes["largest_observation"] = max(len(t), self.notes.get("largest_observation", 0))
        if os.environ.get("VT_DIGEST"):                 # development: is a run a function of its seed?
            with open(os.environ["VT_DIGEST"], "a") as f:
                f.writelines(hashlib.sha256(t.encode()).hexdigest()[:16] + "\n" for t, _ in text)
        if total > TOTAL_MAX:
            text.sort(key=lambda p: len(p[0]))      # something is wrong: small ones first
        a = 0
        while a < len(text):
            # a library that fails in many ways need not be judged to the end
            if self.violations and time.time() - self.t0 > ENOUGH:
                break
            b, size = a, 0
            while b < len(text) and b - a < chunk and (size < CHUNK_MAX or b == a):
                size += len(text[b][0])
                b += 1
            part = [x for _, x in text[a:b]]
            path = os.path.join(scratch(), f"log{a}.ndjson")
            with open(path, "w") as f:
                f.writelines(t + "\n" for t, _ in text[a:b])
            left = max(60.0, LIMIT - (time.time() - self.t0)) if self.quick else 840
            try:
                r = run_tlc(module, subst=subst, env={"VT_LOG": path}, heap=heap, timeout=left)
                if r.error:
                    raise Machinery(r.error)
                if r.distinct != want(part):
                    raise Machinery(f"{module}: {r.distinct} states, expected {want(part)}")
            except Machinery:
                if self.violations:                 # there is an answer already
                    break
                raise
            os.unlink(path)
            self._account(module, r, part)
            a = b

    def _account(self, module, r, part):
        self.states += r.distinct
        self.transitions += r.generated
        self.validated += len(part)
        for x in part:
            self.kinds[x.get("q", "trace")] += 1
        for i, pos, clauses in r.fails:
            if any(c.startswith("machinery-") for c in clauses):
                raise Machinery(f"{clauses} on {json.dumps(part[i - 1])[:1500]}")
            self.violations.append({"clauses": clauses, "pos": pos, "line": part[i - 1]})
        self.models.append({"spec": module, "judged": len(part), "states": r.distinct,
                            "fails": len(r.fails), "secs": round(r.secs, 1)})
        if part and len(self.samples) < 6:
            for x in (part[0], part[len(part) // 2]):
                self.samples.append(brief(x))


def nesting(t):
    """How deep brackets nest (an upper bound; the reader of the trace stops at 255)."""
    if t.count("[") + t.count("{") <= 250:
        return 0
    d = m = 0
    for ch in re.sub(r'"(?:[^"\\]|\\.)*"', "", t):
        if ch in "[{":
            d += 1
            m = d if d > m else m
        elif ch in "]}":
            d -= 1
    return m


def shrink(x):
    """The beginning of an observation that is too large to keep."""
    t = json.dumps(x)
    return {"in": {"input": brief({"in": x.get("in")}, 20000)}, "q": x.get("q", ""), "start": t[:2000], "bytes": len(t)}


def brief(x, limit=1200):
    s = json.dumps(readable(x.get("in", x)))
    return s if len(s) <= limit else s[:limit] + "..."


def readable(x):
    """Code-point lists shown as strings (for evidence and replay files)."""
    if isinstance(x, dict):
        return {k: readable(v) for k, v in x.items()}
    if isinstance(x, list):
        if x and all(isinstance(i, int) and not isinstance(i, bool) for i in x):
            try:
                return "cp:" + uncps(x)
            except (ValueError, OverflowError):
                return x
        return [readable(i) for i in x]
    return x


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def report(ctx, level="model_checking"):
    prop = ctx.prop
    known = known_findings(prop)
    fresh, seen_known = [], {}
    for v in ctx.violations:
        key = v["line"].get("id")
        k = next((k for k in known if key is not None and k["case"] == key
                  and set(v["clauses"]) <= set(k["clauses"])), None)
        if k is not None:
            seen_known[k["case"]] = k
        else:
            fresh.append(v)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    paths = []
    # smallest first, at most 5 replay files
    fresh.sort(key=lambda v: len(json.dumps(v["line"])))
    for i, v in enumerate(fresh[:5]):
        p = os.path.join(rdir, f"{prop}-{i}.json")
        with open(p, "w") as f:
            json.dump({"property": prop, "clauses": v["clauses"], "pos": v["pos"],
                       "seed": ctx.seed, "line": v["line"],
                       "readable": readable(v["line"])}, f, indent=1)
        paths.append(p)
    ev = {
        "property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.validated,
            "samples": ctx.samples[:6],
            "runs": ctx.models[:60], "by_kind": dict(ctx.kinds), **ctx.notes,
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        for v, p in zip(fresh, paths):
            print(f"VIOLATION property={prop} replay={p}")
            print("  clauses: " + ", ".join(v["clauses"]))
            print("  case: " + brief(v["line"], 600))
        print(f"{len(fresh)} violating observation(s)")
        return 1
    print(f"OK property={prop} states={ctx.states} transitions={ctx.transitions} "
          f"validated={ctx.validated} wall={ev['wall_s']}s")
    return 0


def import_library():
    sys.path.insert(0, REPO)
    import htmltools
    f = os.path.realpath(htmltools.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise Machinery("htmltools imported from " + f)
    return htmltools


def main(argv):
    prop, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(EVID, exist_ok=True)
    ctx = None
    try:
        import importlib
        mod = importlib.import_module("vt.props." + prop.lower())
        _limit()
        ctx = Ctx(prop, tier, seed)
        mod.check(ctx)
        return report(ctx)
    except Machinery as e:
        print("MACHINERY-ERROR", e, file=sys.stderr)
        return 2
    except Exception as e:
        # the library failed where it never does (drivers guard what may fail), or took all memory
        frames = traceback.extract_tb(e.__traceback__)
        inside = frames and os.path.realpath(frames[-1].filename).startswith(os.path.join(os.path.realpath(REPO), "htmltools") + os.sep)
        traceback.print_exc()
        if ctx is None or not (inside or isinstance(e, MemoryError)):
            return 2
        _no_limit()
        ctx.violations.append({"clauses": ["unexpected-" + type(e).__name__], "pos": 0,
                               "line": {"in": {"at": [f"{f.filename}:{f.lineno} {f.name}" for f in frames[-8:]], "error": str(e)[:300]}}})
        return report(ctx)
    finally:
        cleanup()
