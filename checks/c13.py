"""C13: ibids and bare numerations (spec/RefLine.tla)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import kb, refline as R, vt  # noqa: E402


def journal_words(rec):
    return {k: v for k, v in rec.items() if k.startswith("journal_")}


def replay_lines(case):
    """Several lines in one extraction: an ibid does not reach into other lines."""
    from refextract.references.api import extract_references_from_string
    return vt.guarded(lambda: extract_references_from_string("\n".join(case["lines"]), override_kbs_files=kb.SMALL))


def body(chk):
    deep = vt.tier() == "thorough"
    few = [R.PRD, R.PLB, R.NP, R.JHEP, R.IBID, R.IBIDB, R.NUM, R.FOO]
    jobs = [
        R.job("2 pieces", R.IBIDS + [R.FOO, R.SMITH], R.MORE_SEPS, 2, tails=["", ". foo"]),
        R.job("3 pieces", R.IBIDS + [R.FOO], [", ", "; ", " [", ", and "], 3),
        R.job("4 pieces", R.IBIDS, ["; "], 4 if deep else 3),
        R.job("5 pieces", few, ["; "], 6 if deep else 5),
        R.job("between other pieces", few + [R.SMITH, R.REP, R.QUOTED, R.ARX], R.CORE_SEPS, 3, tails=["", ";"]),
        R.job("journals without numeration", [R.PRD, R.NP, R.IBID, R.IBIDB, R.NUM] + R.NEARLY[:3] + R.NEARLY[-2:-1], R.CORE_SEPS, 4),
        R.job("erratum", R.IBIDS, [", Erratum: ", " [Erratum ", " (erratum: ", ", also in "], 2),
        R.job("long lines", R.IBIDS + [R.FOO, R.REP, R.SMITH, R.DOI], R.CORE_SEPS, 10, simulate=20000 if deep else 800),
    ]
    cases = R.run_jobs(chk, jobs)
    R.compare(chk, cases)
    # across lines
    single = {}
    for c in cases:
        if c["line"].count(";") <= 1 and len(c["line"]) < 60:
            single[c["line"]] = c
    rows = [single[k] for k in sorted(single)]
    step = max(1, len(rows) // (60 if deep else 30))
    rows = rows[::step]
    multi = []
    for a in rows:
        for b in rows:
            lines = [a["line"], b["line"].replace("[1]", "[2]", 1)]
            recs = []
            for n, (line, c) in enumerate(zip(lines, (a, b)), 1):
                recs += R.expected(dict(c, line=line, number=str(n)))
            multi.append({"lines": lines, "expected": recs})
    for c, o in zip(multi, vt.pool_map(replay_lines, multi, chunk=50)):
        chk.validated += 1
        if o.get("ok") != c["expected"]:
            chk.violation("a line is parsed differently after another one", {
                "lines": c["lines"], "expected": c["expected"], "got": o.get("ok", o)})


if __name__ == "__main__":
    vt.main("C13", body)
