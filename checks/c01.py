"""C01: histories of extractions in one process (spec/KbCache.tla)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import kbhist as K, session as S, vt  # noqa: E402


def job(label, kinds, forms, contents, n, simulate=None, defaults=False, failing=False):
    kinds = [kinds] if isinstance(kinds, str) else kinds
    objects = {"o%d_%s" % (i, f): f for i, f in enumerate(forms)}
    files = {o for o, f in objects.items() if f == "file"}
    kw = dict(invariants=["LikeAFreshProcess", "CacheIsConsistent", "Emit"], label="%s: %s" % (", ".join(kinds), label))
    if simulate:
        kw.update(simulate=simulate, depth=n + 1)
    return (("KbCache", {"Types": set(kinds), "Objects": set(objects), "Contents": set(contents), "Files": files,
                         "Defaults": defaults, "MaxOps": n, "Failing": failing}, kw),
            {"kinds": kinds, "objects": objects})


SMALL_DEFAULTS = ("special_journals", "authors", "journals_re", "collaborations")


def histories(chk, deep):
    jobs = []
    n = 5 if deep else 4
    for kind in K.CONTENTS:
        fs = K.forms(kind)
        if kind == "journals":
            jobs.append(job("two dictionaries", kind, ["dict", "dict"], ["A", "B"], n + 1))
            jobs.append(job("files and failures", kind, ["file", "dict"], ["A", "B", "missing", "bad"], n, failing=True))
            jobs.append(job("long", kind, ["dict", "list", "file", "file"], ["A", "B", "C", "missing"], 12,
                            simulate=3000 if deep else 150, failing=True))
        else:
            jobs.append(job("all forms", kind, fs, ["A", "B"], n, defaults=kind in SMALL_DEFAULTS))
            jobs.append(job("long", kind, fs + ["file"], ["A", "B", "C", "missing"], 10, simulate=500 if deep else 30,
                            failing=True))
        if kind not in SMALL_DEFAULTS:
            jobs.append(job("default", kind, fs, ["A", "B"], 4, simulate=200 if deep else 15, defaults=True))
    names = list(K.CONTENTS)
    for i, kind in enumerate(names):
        other = names[(i + 3) % len(names)]
        jobs.append(job("two kinds", [kind, other], ["list", "file"], ["A", "B", "missing"], 6,
                        simulate=1500 if deep else 60, failing=True))
    cases = []
    for (j, extra), r in zip(jobs, chk.tlc_many([j for j, _ in jobs], parallel=8)):
        cases += [dict(c, **extra) for c in r.records]
    for i, c in enumerate(cases):
        c["entry"] = "journal" if c["kinds"] == ["journals"] and i % 4 == 0 else "string"
    return cases


def wanted(c, op):
    """Contents the extraction has to work with, None when one cannot be loaded."""
    w = tuple(op["want"][k] for k in c["kinds"])
    return None if "error" in w else (tuple(c["kinds"]), w, c["entry"], op["fails"])


def knowledge_bases(chk, deep):
    cases = histories(chk, deep)
    # oracle: what a fresh process gives for each contents
    keys = {wanted(c, op) for c in cases for op in c["log"] if op["op"] == "extract"} - {None}
    keys |= {((kind,), (x,), "string", False) for kind in K.CONTENTS for x in "AB"}
    todo = sorted(keys)
    got = vt.fresh_map(K.fresh, [dict(kinds=k[0], contents=k[1], entry=k[2], fail=k[3]) for k in todo])
    keys = {k: K.freeze(o) for k, o in zip(todo, got)}
    for kind in K.CONTENTS:
        if keys[((kind,), ("A",), "string", False)] == keys[((kind,), ("B",), "string", False)]:
            chk.violation("the contents of a knowledge base have no effect", {"kind": kind, "line": K.LINE})
    # most histories go on from an extraction with other knowledge bases, some start in a new process
    new = [c for i, c in enumerate(cases) if i % max(1, len(cases) // (600 if deep else 100)) == 0]
    ran = list(zip(new, vt.fresh_map(K.run_history, new)))
    vt.fresh_map(K.warm, [()])     # fails here rather than in this process
    K.warm(())
    ran += list(zip(cases, vt.fresh_map(K.run_history, cases)))
    chk.extra["histories of knowledge bases"] = {
        "from a new process": len(new), "after an extraction with other knowledge bases": len(cases)}
    for c, o in ran:
        chk.validated += 1
        want = [wanted(c, op) for op in c["log"] if op["op"] == "extract"]
        if chk.validated % 997 == 1:
            chk.sample({"kinds": c["kinds"], "log": c["log"]})
        what = {"kinds": c["kinds"], "forms": c["objects"], "entry": c["entry"], "log": c["log"]}
        for n, (w, g) in enumerate(zip(want, o["out"])):
            if not ("exc" in g if w is None else K.freeze(g) == keys[w]):
                chk.violation("an extraction depends on earlier ones", dict(
                    what, extraction=n, expected="error" if w is None else keys[w], got=g))
                break
        if o["changed"] is not None:
            chk.violation("an extraction modifies the knowledge bases passed to it", dict(what, changed=o["changed"]))


def documents(chk, deep):
    """One document after the other, with the same knowledge bases."""
    docs, entries, stops = set(S.DOCS), set(S.ENTRIES), {"end", "fails"}
    inv = ["OnlyItsDocument", "Emit"]
    jobs = [("Session", {"Docs": docs, "Entries": entries, "Stops": stops, "MaxOps": 1}, dict(invariants=inv, label="alone")),
            ("Session", {"Docs": docs, "Entries": entries, "Stops": stops if deep else {"end"}, "MaxOps": 2},
             dict(invariants=inv, label="all pairs")),
            ("Session", {"Docs": docs, "Entries": {"string"}, "Stops": {"end"}, "MaxOps": 3}, dict(invariants=inv, label="all triples")),
            ("Session", {"Docs": docs, "Entries": entries, "Stops": stops, "MaxOps": 8},
             dict(invariants=inv, simulate=4000 if deep else 300, depth=9, label="long"))]
    alone, *others = [r.records for r in chk.tlc_many(jobs)]
    key = lambda op: (op["doc"], op["entry"], op["stop"])  # noqa: E731
    want = {key(c["log"][0]): o[0] for c, o in zip(alone, vt.fresh_map(S.run, alone))}
    vt.fresh_map(S.run, [{"log": alone[0]["log"]}])
    cases = [c for cs in others for c in cs]
    chk.extra["sequences of documents"] = len(cases)
    # each worker goes through many of them: the history of a sequence is everything the worker did before
    for c, o in zip(cases, vt.pool_map(S.run, cases)):
        chk.validated += 1
        for n, (op, g) in enumerate(zip(c["log"], o)):
            if g != want[key(op)]:
                chk.violation("an extraction depends on the documents before", {
                    "log": c["log"], "extraction": n, "texts": [S.DOCS[x["doc"]] for x in c["log"]],
                    "expected": want[key(op)], "got": g})
                break


def main(chk):
    deep = vt.tier() == "thorough"
    vt._worker_init()
    import refextract.references.api  # noqa: F401  histories start in processes that have only imported it
    knowledge_bases(chk, deep)
    documents(chk, deep)


if __name__ == "__main__":
    vt.main("C01", main)
