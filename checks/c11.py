"""C11: every piece of a reference ends up in its field (spec/RefLine.tla)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import refline as R, vt  # noqa: E402


def body(chk):
    deep = vt.tier() == "thorough"
    jobs = [
        # what stands between two pieces, before the first and after the last one
        R.job("2 pieces, all separators", R.ALL, R.MORE_SEPS, 2, tails=["", ".", " foo"]),
        R.job("2 pieces, beginnings and ends", R.ALL, [", ", " "], 2, leads=["in ", "(", "see: "], tails=["", ";", "; foo"]),
        R.job("2 pieces, spellings", R.VARIANTS + [R.FOO, R.PRD, R.SMITH], [", ", "; ", " ", ". ", ": ", "  ", " [", "] "], 2,
              tails=["", ". foo"]),
        R.job("punctuation inside of pieces", R.SPACED + [R.FOO, R.PRD, R.REP, R.SMITH, R.IBID], [", ", "; ", " - ", ", -- ", "  ", " ("], 3 if deep else 2,
              leads=["", "foo, -- "], tails=["", ". foo"]),
        R.job("punctuation inside of 3 pieces", R.SPACED, [", - ", "; "], 3),
        R.job("nearly pieces", R.NEARLY + [R.FOO, R.PRD, R.REP, R.SMITH, R.PUB, R.ATLAS], [", ", "; ", " "], 3 if deep else 2,
              tails=["", ". foo"]),
        R.job("journals without a year", R.NOYEAR + [R.FOO, R.SMITH, R.QUOTED, R.REP, R.ARX, R.DOI, R.URL, R.ISBN, R.PUB, R.ATLAS, R.IBID],
              R.MORE_SEPS, 2, tails=["", ";", "."]),
        R.job("ends of journals", R.NOYEAR + [R.PRD, R.NP, R.FOO], ["; ", ", "], 2, tails=["[foo]", "(foo)", "/foo", ";foo", '"A', "=1", "…", "’s"]),
        R.job("3 pieces", R.ALL, [", ", "; "] + ([". ", " "] if deep else []), 3),
        R.job("3 pieces, spellings", R.VARIANTS if deep else R.VARIANTS[::2], [", "], 3),
        R.job("long lines", R.ALL + R.VARIANTS + R.SPACED + R.NEARLY, R.MORE_SEPS, 7, simulate=60000 if deep else 5000),
        R.job("books", [R.BOOK, R.BOOKTEXT, R.Y2008, R.Y2008P, R.YPAR, R.FOO, R.SMITH, R.QUOTED, R.REP, R.DOI],
              [", ", "; ", " "], 3),
    ]
    R.compare(chk, R.run_jobs(chk, jobs))


if __name__ == "__main__":
    vt.main("C11", body)
