"""C07: page breaks, headers and footers (spec/PageBoundary.tla)."""
import os
import random
import re
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import kb, vt  # noqa: E402
from lib.section import raws  # noqa: E402
from lib.vt import guarded  # noqa: E402

INVS = ["BodiesKept", "RemovedAgree", "InOrder", "AllOrNothing", "Emit"]


def L(text):
    return {"words": re.findall(r"[A-Za-z0-9-]+", text), "text": text}


FIRST = [L("References"), L("[1] Start here")]


def job(pages, n, label, lo=None, first=(L("Title page"),), last=(), **kw):
    return ("PageBoundary", {"Pages": vt.set_of([[L(t) for t in p] for p in pages]), "MinPages": n if lo is None else lo, "MaxPages": n,
                             "FirstPage": vt.Raw(vt.tla_value(list(first))), "LastLines": vt.Raw(vt.tla_value([L(t) for t in last]))},
            dict(kw, invariants=INVS, label=label))


def direct(lines):
    from refextract.documents.text import remove_page_boundary_lines
    return list(remove_page_boundary_lines(list(lines)))


def replay(case):
    out = {}
    lines = case["lines"]
    if case["direct"]:
        out["direct"] = guarded(lambda: direct([t + "\n" for t in lines]))
    if case["api"]:
        from refextract.references.api import extract_references_from_file, extract_references_from_string
        if case["api"] == "file":
            fd, path = tempfile.mkstemp(prefix="p_", dir=os.environ["C07_DIR"])
            with os.fdopen(fd, "w") as f:
                f.write("\n".join(lines) + "\n")
            out["api"] = guarded(lambda: raws(extract_references_from_file(path, override_kbs_files=kb.SMALL)))
            os.remove(path)
        else:
            out["api"] = guarded(lambda: raws(extract_references_from_string(
                "\n".join(lines), is_only_references=False, override_kbs_files=kb.SMALL)))
    return out


def body(chk):
    deep = vt.tier() == "thorough"
    rng = random.Random(vt.seed())
    try:
        from refextract.documents.text import remove_page_boundary_lines  # noqa: F401
        have_direct = True
    except ImportError:
        have_direct = False
    H, H2, HX, D, E = "Journal of Tests 3", "Journal of Tests 14", "Jewel off Toys 9", "Some other text here", "Different"
    F, F2 = "Page 7", "Page 8"
    jobs = []
    # headers: pages that agree or not in their first lines
    pages = [[H, D], [H2, D], [HX, "Aa bb"], [D, E], ["", D], [H, F, D], [H2, "Cc dd", E]]
    jobs.append(job(pages, 5, "headers", lo=3))
    jobs.append(job([pages[i] for i in (0, 1, 3, 4)] + [[H, "", D]], 7 if deep else 6, "more pages", lo=5))
    # footers
    pages = [[D, F], [E, F2], [D, E, F], ["Aa bb", "", F2], [D, "***"], [E], [D, "", ""]]
    jobs.append(job(pages, 5, "footers", lo=2, first=FIRST))
    # both, short pages
    pages = [[H, D, F], [H2, E, F2], [H, F], [H2, "", F], [], [D]]
    jobs.append(job(pages, 6 if deep else 5, "both", lo=1, first=FIRST))
    # how much lines have to agree
    ten = "Aa bb cc dd ee ff gg hh ii jj"
    nine = "Aa bb cc dd ee ff gg hh ii"
    pages = [[ten, D], [ten.replace("bb", "xx"), E], [ten.replace("bb", "xx").replace("cc", "yy"), D], [nine, D],
             [nine.replace("dd", "zz"), E], [ten.replace("ee", "12"), D], [ten.replace("ee", "345"), D]]
    jobs.append(job(pages, 5 if deep else 4, "agreement of long lines", lo=4))
    pages = [[D, ten], [E, ten.upper()], [E, ten.replace("bb", "bxb").replace("ii", "xi")], [D, nine], [D, nine.replace("gg", "gh")],
             [E, "17"], [D, "3"], [E, "-- 4 --"], [D, "-- 12 --"], [E, "IV"]]
    jobs.append(job(pages, 5 if deep else 4, "agreement of footers", lo=3, first=FIRST))
    # text after the last page break
    jobs.append(job([[H, D, F], [H2, E, F2], [D, E, "Aa"]], 5, "last page", lo=2, first=FIRST, last=[H, "The end", F]))
    allp = [[H, "", D, E, F], [H2, "", E, D, E, F2], [H, E, D, "", F], [H2, "", D, F], [HX, "", "Aa bb", "Cc", F2], [H, "", D, E, "4"]]
    jobs.append(job(allp, 9, "long documents", lo=9, next_="LongNext", simulate=3000 if deep else 300, depth=80, first=FIRST))
    jobs.append(job(allp[:2] + [[H2, "", E, D, "Aa", F]], 8, "agreeing documents", lo=4, next_="Next", simulate=2000 if deep else 200,
                    depth=80, first=FIRST, last=["Aa"]))
    cases = []
    for r in chk.tlc_many(jobs):
        cases += r.records
    cap = 200000 if deep else 30000
    if len(cases) > cap:
        cases = rng.sample(cases, cap)
    base = tempfile.mkdtemp(prefix="c07_")
    os.environ["C07_DIR"] = base
    try:
        for n, c in enumerate(cases):
            c["direct"] = have_direct
            # (lines that end in a hyphen are joined to the next one: C10)
            ok = c["lines"][0] == "References" and len(c["lines"]) <= 24 and not any(t.endswith("-") for t in c["lines"])
            c["api"] = None
            if ok and (n % 3 == 0 or not have_direct):
                # blank lines of a string have no line end, they are no blank lines for the search of headers
                c["api"] = "string" if n % 2 and "" not in c["lines"] else "file"
        results = vt.pool_map(replay, cases, chunk=100)
        for c, o in zip(cases, results):
            want = [c["lines"][k - 1] for k in c["kept"]]
            if c["heads"] and c["feet"]:
                chk.sample({"lines": c["lines"], "kept": want})
            if "direct" in o:
                chk.validated += 1
                if o["direct"].get("ok") != [t + "\n" for t in want]:
                    chk.violation("other lines are removed than page breaks, headers and footers", {
                        "lines": c["lines"], "expected": want, "got": o["direct"], "header lines": c["heads"],
                        "footer lines": c["feet"]})
            if "api" in o:
                chk.validated += 1
                texts = [" ".join(t.split()) for t in want[1:]]
                expected = [" ".join(t for t in texts if t)]
                if o["api"].get("ok") != expected:
                    chk.violation("the reference has other lines than those between headers and footers", {
                        "lines": c["lines"], "expected": expected, "got": o["api"], "via": c["api"]})
    finally:
        shutil.rmtree(base)


if __name__ == "__main__":
    vt.main("C07", body)
