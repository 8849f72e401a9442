"""C02: nested and concurrent extractions (spec/Overlap.tla)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import overlap as O, sched, vt  # noqa: E402

INVS = ["Isolated", "LockIsFreed", "NoDeadlock", "Emit"]


def spec(label, threads, points, preempt, calls=0, nested=(), depth=0, total=0, simulate=None):
    kw = dict(invariants=INVS, label=label)
    if simulate:
        kw.update(simulate=simulate, depth=400)
    return ("Overlap", {"Threads": threads, "Types": 2, "Points": points, "Preempt": preempt, "Calls": calls,
                        "Nested": set(nested), "MaxDepth": depth, "MaxNested": total}, kw)


def interesting(trail, deep):
    """Points of an extraction (numbers of lines executed) worth an interruption:
    first and last time of every line, for the loading of knowledge bases, and for everything else."""
    first, last = {}, {}
    for i, at in enumerate(trail, 1):
        first.setdefault(at, i)
        last[at] = i
    loading = sorted({x[at] for x in (first, last) for at in first if os.path.basename(at[0]) == "kbs.py"})
    every = sorted({x[at] for x in (first, last) for at in first})
    return loading or every, every


def thin(points, n, seed):
    if len(points) <= n:
        return points
    step = len(points) / n
    return [points[int((i + (seed * 0.37) % 1) * step)] for i in range(n)]


def main(chk):
    deep = vt.tier() == "thorough"
    seed = vt.seed()
    vt._worker_init()
    sched.watch_locks()
    import refextract.references.api  # noqa: F401

    contents = ["A", "B", "C", "bad"]
    asked = [(c, line, False) for c in contents for line in (O.LINE, O.SHORT)] + [("A", O.SHORT, True), ("B", O.SHORT, True)]
    got = dict(zip(asked, vt.fresh_map(O.solo, asked)))
    want = {(c, line): got[(c, line, False)]["res"] for c, line, t in asked if not t}
    for line in (O.LINE, O.SHORT):
        if want[("A", line)] == want[("B", line)] or "exc" not in want[("bad", line)]:
            chk.violation("the knowledge bases have no effect", {"line": line, "alone": [want[(c, line)] for c in contents]})
            return
    loading, every = interesting(got[("A", O.SHORT, True)]["trail"], deep)
    if not every:
        raise vt.CodeDied("no line of the code is traced")
    calls = min(got[("A", O.LINE, False)]["calls"], got[("B", O.LINE, False)]["calls"])

    few = thin(loading, 90 if deep else 28, seed)
    all_points = thin(every, 3000 if deep else 700, seed)
    jobs, points = [], []

    def add(job, pts, **extra):
        jobs.append(job)
        points.append((pts, job[1]["Threads"], extra))
    # positions 1..Points of the specification stand for the points above
    add(spec("two threads, interrupted once, anywhere", ["A", "B"], len(all_points), 1), all_points, kind="lines")
    add(spec("two threads, interrupted twice while loading", ["A", "B"], len(few), 2), few, kind="lines")
    add(spec("a thread whose knowledge bases are there already", ["A", "B"], len(few), 2), few, kind="lines", before="A")
    add(spec("one thread fails", ["A", "bad"], len(few), 1), few, kind="lines")
    add(spec("one thread fails first", ["bad", "A"], len(few), 1), few, kind="lines")
    tri = thin(loading, 40 if deep else 14, seed)
    add(spec("three threads", ["A", "B", "C"], len(tri), 3 if deep else 2), tri, kind="lines")
    add(spec("nested in callbacks", ["A"], 0, 0, calls=min(calls, 5), nested=["A", "B", "bad"], depth=3, total=3 if deep else 2),
        None, kind="calls")
    add(spec("deeply nested", ["A"], 0, 0, calls=2, nested=["A", "B"], depth=4, total=4), None, kind="calls")
    add(spec("two threads, interrupted in callbacks", ["A", "B"], 0, 4 if deep else 3, calls=calls), None, kind="calls")
    add(spec("threads and nested extractions", ["A", "B"], 0, 2, calls=3, nested=["C", "B"], depth=1, total=1), None, kind="calls")

    work = {"lines": [], "calls": []}
    for r, (pts, threads, extra) in zip(chk.tlc_many(jobs, parallel=5), points):
        seen = set()
        for c in r.records:
            if extra["kind"] == "lines":
                schedule = [(s["t"] - 1, pts[s["until"] - 1] if 0 < s["until"] <= len(pts) else 0) for s in c["sched"]]
            else:
                # points of the specification before the first callback are one point for the code
                schedule = [(s["t"] - 1, max(1, s["until"] - 5) if s["until"] else 0) for s in c["sched"]]
            case = {"threads": threads, "schedule": schedule, "nested": c["nested"], "before": extra.get("before"),
                    "line": O.SHORT if extra["kind"] == "lines" else O.LINE}
            if repr(case) not in seen:
                seen.add(repr(case))
                work[extra["kind"]].append(case)
    chk.extra["schedules"] = {"interrupted at lines": len(work["lines"]), "callbacks": len(work["calls"]),
                              "lines of the code that are points": len(all_points)}
    for kind, func in (("lines", O.lines_job), ("calls", O.calls_job)):
        cases = work[kind]
        for c, o in zip(cases, vt.pool_map(func, cases, timeout=3600 if deep else 420)):
            chk.validated += 1
            if chk.validated % 1499 == 1:
                chk.sample({k: c[k] for k in ("threads", "schedule", "nested")})
            what = dict(c, kind=kind)
            if isinstance(o, dict) and "deadlock" in o:
                chk.violation("overlapping extractions do not come to an end", dict(what, got=o["deadlock"]))
                continue
            res = [(x, r) for x, r in zip(c["threads"], o if kind == "lines" else o["threads"])]
            res += [] if kind == "lines" else [tuple(x) for x in o["inner"]]
            if kind == "calls" and "bad" not in c["threads"] and len(o["inner"]) != len(c["nested"]):
                raise vt.CodeDied("a nested extraction was not made: %r" % c)
            for x, r in res:
                if r != want[(x, c["line"])]:
                    chk.violation("an extraction is disturbed by one that overlaps it", dict(
                        what, contents=x, expected=want[(x, c["line"])], got=r))
                    break


if __name__ == "__main__":
    vt.main("C02", main)
