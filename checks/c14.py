"""C14: one year, one author, one DOI, no repeated collaboration (spec/RefLine.tla)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import refline as R, vt  # noqa: E402

P = R.P


def body(chk):
    deep = vt.tier() == "thorough"
    years = [R.YPAR, R.YBARE, P("year", "[1997]"), P("year", "2001"), P("year", "19991"), P("text", "x1999y"),
             P("year", "pp. 1800"), P("text", "foo 1999-2001 bar"), P("year", "1999")]
    many = [R.SMITH, R.JONES, R.DOI, P("DOI", "doi:10.1000/xyz", "doi:10.1000/xyz"), R.ATLAS, R.YPAR]
    jobs = [
        R.job("years", years + [R.FOO, R.PRD, R.JHEP, R.BOOK, R.SMITH], [", ", "; ", " "], 3, tails=["", "."]),
        R.job("years 4", [R.YPAR, R.YBARE, R.FOO, R.PRD, R.REP], R.CORE_SEPS, 5 if deep else 4),
        R.job("authors, DOIs, collaborations", many + [R.FOO], [", ", "; "], 4),
        R.job("collaborations", [R.ATLAS, P("COLLABORATION", "CMS Collaboration", "CMS Collaboration"), R.FOO, R.REP],
              [", ", " ", "; ", " (", ") "], 4),
        R.job("pieces with years", R.ALL, R.CORE_SEPS, 3, tails=[" (1991)"]),
        R.job("books", [R.BOOK, R.BOOKTEXT, R.Y2008, R.Y2008P, R.YPAR, R.FOO, R.SMITH, R.QUOTED, R.PRD, R.DOI, R.ISBN],
              [", ", "; ", " "], 3),
        R.job("long lines", R.ALL + years, R.MORE_SEPS[:4], 8, simulate=40000 if deep else 1500),
    ]
    R.compare(chk, R.run_jobs(chk, jobs))


if __name__ == "__main__":
    vt.main("C14", body)
