"""Shared machinery: run TLC, collect the cases it emits, replay them into the
code under /repo, validate recorded observations with TLC, report verdicts.

Exit codes of a check: 0 (held on everything explored) or 1 with a VIOLATION
line.  Any other exit is a failure of the machinery itself.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    pass


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


# TLC handles ASCII strings only: other characters go through it as @code@
_NON_ASCII = re.compile("[^\\x00-\\x7f]|[\\x00-\\x08\\x0b\\x0d-\\x1f\\x7f]")
_ENCODED = re.compile("@([0-9a-f]{6})@")


def decode(text):
    return _ENCODED.sub(lambda m: json.dumps(chr(int(m.group(1), 16)))[1:-1], text)


def tla_value(v):
    """Python value -> TLA+ literal."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        v = _NON_ASCII.sub(lambda m: "@%06x@" % ord(m.group()), v)
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\f", "\\f") + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla_value(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_value(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla_value(x)) for k, x in v.items()) + "]"
    raise MachineryError("no TLA+ literal for %r" % (v,))


class TlcResult:
    def __init__(self):
        self.records = []
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.ok = False
        self.violated = None
        self.tail = ""
        self.wall = 0.0
        self.coverage = {}


def run_tlc(module, constants=None, invariants=(), init="Init", next_="Next",
            spec=None, view=None, constraint=None, postcondition=None, properties=(),
            simulate=None, depth=None, workers=None, timeout=800, extra_files=None,
            seed_=None, coverage=False, overrides=None, action_constraint=None,
            deadlock=False, heap="8g", keep=False):
    """Run TLC on spec/<module>.tla with a generated config.

    Every line printed by the specification as PrintT("@@" \\o json) becomes a
    record of the result.
    """
    work = tempfile.mkdtemp(prefix="vt_tlc_")
    t0 = time.time()
    res = TlcResult()
    try:
        for name in os.listdir(SPEC):
            if name.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, name), work)
        for name, text in (extra_files or {}).items():
            with open(os.path.join(work, name), "w", encoding="utf-8") as fh:
                fh.write(text)
        cfg = []
        if spec:
            cfg.append("SPECIFICATION %s" % spec)
        else:
            cfg += ["INIT %s" % init, "NEXT %s" % next_]
        mc = module
        defs = []
        for k, v in (constants or {}).items():
            defs.append("mc_%s == %s" % (k, v if isinstance(v, Raw) else tla_value(v)))
            cfg.append("CONSTANT %s <- mc_%s" % (k, k))
        for k, v in (overrides or {}).items():
            cfg.append("CONSTANT %s <- %s" % (k, v))
        if defs:
            mc = "MC_" + module
            with open(os.path.join(work, mc + ".tla"), "w", encoding="utf-8") as fh:
                fh.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (mc, module, "\n".join(defs)))
        for inv in invariants:
            cfg.append("INVARIANT %s" % inv)
        for prop in properties:
            cfg.append("PROPERTY %s" % prop)
        if view:
            cfg.append("VIEW %s" % view)
        if constraint:
            cfg.append("CONSTRAINT %s" % constraint)
        if action_constraint:
            cfg.append("ACTION_CONSTRAINT %s" % action_constraint)
        if postcondition:
            cfg.append("POSTCONDITION %s" % postcondition)
        cfg.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(work, "M.cfg"), "w") as fh:
            fh.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8",
               "-Dstdout.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8",
               "-Dtlc2.TLC.stopAfter=%d" % timeout, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers or NPROC), "-config", "M.cfg",
               "-metadir", os.path.join(work, "states"), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
        if simulate or seed_ is not None:
            cmd += ["-seed", str(seed_ if seed_ is not None else seed())]
        if coverage:
            cmd += ["-coverage", "60"]
        cmd.append(mc + ".tla")
        out_path = os.path.join(work, "out.txt")
        with open(out_path, "wb") as out:
            try:
                proc = subprocess.run(cmd, cwd=work, stdout=out, stderr=subprocess.STDOUT,
                                      timeout=timeout + 60)
                rc = proc.returncode
            except subprocess.TimeoutExpired:
                raise MachineryError("TLC timed out on %s" % module)
        tail, printed = [], set()
        with open(out_path, encoding="utf-8", errors="replace") as fh:
            for line in fh:
                line = line.rstrip("\n")
                if line.startswith('"@@'):
                    if simulate:      # the last state of a simulated behaviour is printed twice
                        if line in printed:
                            continue
                        printed.add(line)
                    text = json.loads(line)[2:]
                    res.records.append(json.loads(decode(text)))
                    continue
                tail.append(line)
                if len(tail) > 400:
                    del tail[:200]
                m = re.match(r"^(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    res.generated, res.distinct = int(m.group(1)), int(m.group(2))
                m = re.match(r"^The number of states generated: (\d+)", line)
                if m:
                    res.generated = res.distinct = int(m.group(1))
                m = re.match(r"^The depth of the complete state graph search is (\d+)", line)
                if m:
                    res.depth = int(m.group(1))
                m = re.match(r"^Error: Invariant (\S+) is violated", line)
                if m:
                    res.violated = m.group(1)
                if re.match(r"^Error: (Action|Temporal) propert", line):
                    res.violated = line
        res.tail = "\n".join(tail[-60:])
        res.ok = rc == 0
        if not res.ok and not res.violated:
            raise MachineryError("TLC failed on %s (exit %s):\n%s" % (module, rc, res.tail[-4000:]))
        if res.ok and "Emit" in invariants and not res.records:
            raise MachineryError("%s writes nothing that could be replayed" % module)
        return res
    finally:
        res.wall = time.time() - t0
        if keep:
            sys.stderr.write("TLC work directory: %s\n" % work)
        else:
            shutil.rmtree(work, ignore_errors=True)


class Raw(str):
    """A TLA+ expression to be used verbatim as a constant."""


# ---------------------------------------------------------------- replay pool

def _worker_init():
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


class CodeDied(Exception):
    """The code under test killed its process or did not come to an end."""


def _run_chunk(arg):
    func, items = arg
    return [func(x) for x in items]


def pool_map(func, items, chunk=64, procs=None, initializer=None, timeout=600):
    """Run func over items in parallel worker processes, in order.

    A process that dies and a replay that does not come to an end (several
    times longer than it ever takes) are failures of the code under test.
    """
    import concurrent.futures as cf
    import multiprocessing as mp
    items = list(items)
    if not items:
        return []
    n = procs or NPROC
    size = max(1, min(chunk, len(items) // n + 1))
    chunks = [items[i:i + size] for i in range(0, len(items), size)]

    with cf.ProcessPoolExecutor(n, mp_context=mp.get_context("fork"), initializer=_pool_init,
                                initargs=(initializer,)) as ex:
        try:
            out = []
            for part in ex.map(_run_chunk, [(func, c) for c in chunks], timeout=timeout):
                out.extend(part)
            return out
        except cf.process.BrokenProcessPool:
            raise CodeDied("a process running the extraction died")
        except cf.TimeoutError:
            for pr in list(ex._processes.values()):
                pr.kill()
            raise CodeDied("the extraction did not come to an end within %d s" % timeout)


def fresh_map(func, items, procs=None, timeout=600):
    """Run func over items, each in a process of its own."""
    import multiprocessing as mp
    items = list(items)
    with mp.get_context("fork").Pool(procs or NPROC, initializer=_worker_init, maxtasksperchild=1) as pool:
        try:
            return pool.map_async(func, items, chunksize=1).get(timeout)
        except mp.TimeoutError:
            raise CodeDied("the extraction did not come to an end within %d s" % timeout)


def _pool_init(initializer):
    _worker_init()
    if initializer:
        initializer()


# ------------------------------------------------------------------- verdicts

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.extra = {}
        self.known_hit = {}
        self.known = load_known(prop)
        self.runs = []

    def tlc(self, module, constants=None, must_hold=True, label=None, **kw):
        r = run_tlc(module, constants, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.runs.append({"module": module, "label": label or module, "distinct": r.distinct,
                          "generated": r.generated, "depth": r.depth, "cases": len(r.records),
                          "wall_s": round(r.wall, 1)})
        if must_hold and r.violated:
            raise MachineryError("the specification %s violates its own invariant %s:\n%s"
                                 % (module, r.violated, r.tail[-3000:]))
        return r

    def tlc_many(self, jobs, parallel=4):
        """jobs: list of (module, constants, keyword arguments), run side by side."""
        import concurrent.futures as cf

        def one(job):
            module, constants, kw = job
            kw = dict(kw)
            kw.setdefault("workers", max(1, NPROC // parallel))
            kw.setdefault("heap", "5g")
            return self.tlc(module, constants, **kw)

        with cf.ThreadPoolExecutor(parallel) as ex:
            return list(ex.map(one, jobs))

    def sample(self, case, limit=4):
        if len(self.samples) < limit:
            text = json.dumps(case, ensure_ascii=False)
            if len(text) > 1500:
                text = text[:1500] + "..."
                self.samples.append(text)
            else:
                self.samples.append(case)

    def violation(self, what, detail):
        """Record a disagreement between the specification and the code."""
        for finding in self.known:
            if known_matches(finding, what, detail):
                self.known_hit[finding["id"]] = finding["what"]
                return
        self.violations.append({"what": what, "detail": detail})

    def finish(self):
        wall = time.time() - self.t0
        replay = None
        stale = os.path.join(VERIF, "evidence", "replay_%s.json" % self.prop)
        if not self.violations and os.path.exists(stale):
            os.remove(stale)
        for text in sorted(self.known_hit.values()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if self.violations:
            path = os.path.join(VERIF, "evidence", "replay_%s.json" % self.prop)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="utf-8", errors="backslashreplace") as fh:
                json.dump({"property": self.prop, "count": len(self.violations),
                           "violations": self.violations[:int(os.environ.get("VERIF_SAVE", "50"))]}, fh, indent=1, ensure_ascii=False,
                          default=repr)
            replay = path
            for v in self.violations[:5]:
                print("  %s: %s" % (v["what"], json.dumps(v["detail"], ensure_ascii=False, default=repr)[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "samples": self.samples or ["none"], "runs": self.runs}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": tier(), "seed": seed(), "level": self.level,
              "coverage": cov, "wall_s": round(wall, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", "%s.json" % self.prop), "w", encoding="utf-8", errors="backslashreplace") as fh:
            json.dump(ev, fh, indent=1, ensure_ascii=False, default=repr)
        print("%s: %d states, %d transitions, %d behaviours replayed/validated, %d violation(s), %.1fs"
              % (self.prop, self.states, self.transitions, self.validated, len(self.violations), wall))
        return 1 if self.violations else 0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as fh:
        data = json.load(fh)
    return [f for f in data.get("known", []) if f["property"] == prop]


def known_matches(finding, what, detail):
    want = finding["match"]
    if want.get("what") is not None and want["what"] != what:
        return False
    for k, v in want.get("detail", {}).items():
        if not isinstance(detail, dict) or detail.get(k) != v:
            return False
    return True


def exc_name(exc):
    return type(exc).__name__


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


CASE_LIMIT = 30


def guarded(func, *args, **kw):
    """Result of a call into the code: {"ok": value} or {"exc": name}."""
    main_thread = threading.current_thread() is threading.main_thread()
    if main_thread:
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(CASE_LIMIT)
    try:
        return {"ok": func(*args, **kw)}
    except Hang:
        return {"exc": "Hang", "where": "no answer within %d s" % CASE_LIMIT}
    except Exception as exc:  # noqa: BLE001
        tb = traceback.extract_tb(exc.__traceback__)
        return {"exc": type(exc).__name__, "where": "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name)}
    finally:
        if main_thread:
            signal.alarm(0)


def set_of(rows):
    return Raw("{" + ", ".join(tla_value(x) for x in rows) + "}")


def main(prop, body):
    """Run the check of one property: body(chk) replays and reports."""
    sys.stdout.reconfigure(errors="backslashreplace")
    chk = Check(prop)
    probe = subprocess.run([sys.executable, "-W", "ignore", "-c",
                            "import sys; sys.path.insert(0, %r); import refextract, refextract.references.api, "
                            "refextract.extract, refextract.references.pdf" % REPO],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd="/")
    if probe.returncode:
        chk.violation("the package cannot be imported", {"output": probe.stdout.decode("utf-8", "replace")[-1500:]})
    else:
        try:
            body(chk)
        except CodeDied as exc:
            chk.violation("the code under test does not answer", {"what": str(exc)})
    sys.exit(chk.finish())
