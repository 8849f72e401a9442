"""C12: several citations in one reference (spec/RefLine.tla)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import refline as R, vt  # noqa: E402


def body(chk):
    deep = vt.tier() == "thorough"
    core = [R.FOO, R.SMITH, R.JONES, R.PRD, R.ARX, R.REP, R.DOI]
    jobs = [
        R.job("3 pieces", R.ALL, R.CORE_SEPS, 3, tails=["", "; "]),
        R.job("4 pieces", core, R.CORE_SEPS, 4),
        R.job("4 pieces, others", [R.SMITH, R.QUOTED, R.URL, R.HDL, R.ATLAS, R.BOOK, R.PUB], R.CORE_SEPS, 4),
        R.job("5 pieces, authors", [R.FOO, R.SMITH, R.JONES, R.PRD, R.ARX], R.CORE_SEPS, 5),
        R.job("semicolons", [R.FOO, R.SMITH, R.PRD, R.REP, R.ISBN], ["; ", ";; ", "; , ; ", " ; x; ", ";", ", "], 3,
              leads=["", "; ", "x; "], tails=["", ";", "; y; ", ";;"]),
        R.job("journals without a year", R.NOYEAR[:2] + [R.FOO, R.SMITH, R.JONES, R.QUOTED, R.REP, R.ARX, R.URL, R.ATLAS, R.PRD],
              ["; ", ";", ", "], 3, tails=["", "; "]),
        R.job("long lines", R.ALL + [R.BOOK, R.NP], R.MORE_SEPS[:4], 9, simulate=40000 if deep else 1500),
    ]
    if deep:
        jobs += [R.job("5 pieces", core, R.CORE_SEPS, 5),
                 R.job("6 pieces, authors", [R.SMITH, R.JONES, R.PRD, R.ARX], R.CORE_SEPS, 6)]
    R.compare(chk, R.run_jobs(chk, jobs))


if __name__ == "__main__":
    vt.main("C12", body)
