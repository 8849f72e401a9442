"""C19: citation keys and links of PDFs (spec/PdfLinks.tla)."""
import json
import os
import random
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import kb, pdfgen, vt  # noqa: E402

U = ["http://a.org/1", "https://b.org/x?y=1&z=2", "https://doi.org/10.1000/xyz", "mailto:a@b.c"]
TEXT_URL = ["https://text.org/t"]
WIDTH = 612


def x_of(p):
    return p["col"] * WIDTH // 2 + 40 + 10 * p["x"]


def y_of(p, line=0):
    return 740 - 60 * p["row"] - 20 * line


# things that can make a PDF unusual: whatever they do, nothing wrong is attached
STRANGE_DESTS = {
    "null page": "[null /XYZ 60 650 0]", "missing page": "[99 0 R /XYZ 60 650 0]", "page number": "[7 /XYZ 60 650 0]",
    "fit width": "[%(p0)s /FitH 600]", "fit": "[%(p0)s /Fit]", "no left": "[%(p0)s /XYZ null 600 0]", "no top": "[%(p0)s /XYZ 60 null 0]",
    "left 0": "[%(p0)s /XYZ 0 600 0]", "short": "[%(p0)s]", "string": "(foo)", "null": "null", "empty": "[]", "left text": "[%(p0)s /XYZ (a) 600 0]",
    "dictionary": "<< >>", "number": "5",
}
RECT = "/Rect [60 300 90 310]"
STRANGE_LINKS = {
    "link null": "null", "link without action": "<< /Subtype /Link %s >>" % RECT, "link to destination": "<< /Subtype /Link %s /Dest (cite.k1) >>" % RECT,
    "link action null": "<< /Subtype /Link %s /A null >>" % RECT, "link go to": "<< /Subtype /Link %s /A << /S /GoTo /D (cite.k1) >> >>" % RECT,
    "link without URI": "<< /Subtype /Link %s /A << /S /URI >> >>" % RECT, "link without place": "<< /Subtype /Link /A << /S /URI /URI (http://lost.org) >> >>",
    "link short place": "<< /Subtype /Link /Rect [1 2] /A << /S /URI /URI (http://lost.org) >> >>",
    "link URI null": "<< /Subtype /Link %s /A << /S /URI /URI null >> >>" % RECT, "link URI number": "<< /Subtype /Link %s /A << /S /URI /URI 12 >> >>" % RECT,
    "link URI empty": "<< /Subtype /Link %s /A << /S /URI /URI () >> >>" % RECT, "highlight": "<< /Subtype /Highlight %s /Contents (hi) >>" % RECT,
    "link array": "[]", "link string": "(x)",
}
STRANGE_PAGES = {"annots null": "/Annots null", "annots number": "/Annots 5", "annots string": "/Annots (x)", "annots empty": "/Annots []",
                 "crop box empty": "/CropBox [0 0 0 0]", "crop box null": "/CropBox null"}
# unusual ways that change nothing
SAME = ["flat", "bytes", "other destinations", "names", "real numbers", "no links"]
# destinations as names: no keys are found
OLD = ["old"]


def build(case):
    npages = 1 + max([0] + [k["page"] for k in case["keys"]] + [ln["at"]["page"] for ln in case["links"]])
    lines = ["Some paper", "References"]
    n = 0
    for r in case["recs"]:
        n += 1
        lines.append("[%d] A. Smith, private notes" % n + (", " + r[0] if r else ""))
    pages = [{"text": [], "links": []} for _ in range(npages)]
    pages[0]["text"] = [(60, 700 - 14 * i, s) for i, s in enumerate(lines)]
    s = case["strange"]
    dests = []
    for i, k in enumerate(case["keys"]):
        name = "cite.%s" % case["names"][i]
        if s in STRANGE_DESTS and i == 0:
            dests.append((name, STRANGE_DESTS[s]))
        elif s == "real numbers":
            dests.append((name, k["page"], x_of(k) + 0.125, y_of(k) + 0.375))
        else:
            dests.append((name, k["page"], x_of(k), y_of(k)))
    if s == "other destinations":
        dests += [("section.1", 0, 60, 500), ("page.1", 0, 60, 700), ("Cite.x", 0, 60, 400), ("xcite.y", 0, 60, 401), ("equation.cite.1", 0, 60, 402)]
    if s == "bytes":
        dests = [(d[0].encode("latin-1") if isinstance(d[0], str) else d[0],) + d[1:] for d in dests]
    for ln in case["links"]:
        p = ln["at"]
        top = y_of(p, p["line"]) - 3
        pages[p["page"]]["links"].append((x_of(p) + 5, top - 10, x_of(p) + 80, top, ln["to"]))
    if s in STRANGE_LINKS:
        pages[0]["links"].insert(0, STRANGE_LINKS[s])
    if s in STRANGE_PAGES:
        pages[0]["extra"] = STRANGE_PAGES[s]
        if "Annots" in STRANGE_PAGES[s]:
            pages[0]["links"] = []
    style = {"flat": "flat", "old": "old"}.get(s, "names")
    if not dests:
        style = "names"
    return pdfgen.Pdf(pages, dests=dests, dest_style=style).render()


def replay(case):
    from refextract.references.api import extract_references_from_file
    fd, path = tempfile.mkstemp(prefix="p_", suffix=".pdf", dir=os.environ["C19_DIR"])
    try:
        with os.fdopen(fd, "wb") as fh:
            fh.write(build(case))

        def go():
            recs = extract_references_from_file(path, override_kbs_files=kb.SMALL)
            return json.loads(json.dumps([[r.get("texkey"), r.get("url")] for r in recs], default=repr))
        return vt.guarded(go)
    finally:
        os.remove(path)


def places(pages=(0,), cols=(0,), rows=(1, 2, 3), xs=(0,), lines=None):
    out = []
    for p in pages:
        for c in cols:
            for r in rows:
                for x in xs:
                    for ln in lines or (None,):
                        d = {"page": p, "col": c, "row": r, "x": x}
                        if ln is not None:
                            d["line"] = ln
                        out.append(d)
    return out


def body(chk):
    deep = vt.tier() == "thorough"
    rng = random.Random(vt.seed())

    def job(label, nrecs, keys, links, maxkeys, maxlinks, strange=("",), minkeys=0, targets=U[:2], simulate=None, texts=()):
        recs = []
        for n in nrecs:
            recs.append([[] for _ in range(n)])
            if texts and n:
                recs.append([list(texts)] + [[] for _ in range(n - 1)])
        kw = dict(invariants=["OneEach", "AllOrNone", "KeysInOrder", "NoDuplicates", "LinksOnce", "Emit"], label=label)
        if simulate:
            kw.update(simulate=simulate, depth=60, next_="LongNext")
        return ("PdfLinks", {"Records": vt.set_of(recs), "KeyPlaces": vt.set_of(keys), "LinkPlaces": vt.set_of(links), "MaxKeys": maxkeys,
                             "MinKeys": minkeys, "MaxLinks": maxlinks, "Targets": list(targets), "Strange": set(strange)}, kw)

    one_col = places(rows=(1, 3), lines=(0, 1)) + places(rows=(0, 5), lines=(0,)) + places(cols=(1,), rows=(2,), lines=(0,))
    two_pages = places(pages=(0, 1), rows=(1, 4))
    all_two = places(pages=(0,), cols=(0, 1), rows=(1, 3))
    right = places(cols=(1,), rows=(1, 3, 5))
    jobs = [
        job("counts", [1, 2, 3], places(rows=(1, 2, 3, 4)), places(rows=(2,), lines=(0,)), 4, 1),
        job("one column", [2], places(rows=(1, 2, 3)), one_col, 2, 2, minkeys=2, texts=U[:1]),
        job("targets", [2], places(rows=(1, 3)), places(rows=(1, 2), lines=(1,)), 2, 4 if deep else 3, minkeys=2, targets=U, texts=TEXT_URL),
        job("pages", [3], two_pages, places(pages=(0, 1, 3), rows=(0, 2, 5), lines=(0,)), 3, 2 if deep else 1, minkeys=3),
        job("two columns", [4], right + places(rows=(1, 3)), places(cols=(0, 1), rows=(0, 2, 4), lines=(0,)), 4, 1, minkeys=4),
        job("few in the right column", [3], all_two + places(cols=(1,), rows=(5,), xs=(1,)), places(cols=(0, 1), rows=(2,), lines=(0,)), 3, 1,
            minkeys=3),
        job("other starts in the right column", [3], places(cols=(1,), rows=(1, 2, 3, 4), xs=(0, 1)),
            places(cols=(0, 1), rows=(2,), lines=(1,)), 3, 1, minkeys=3),
        job("long lists", [6, 7], places(pages=(0, 1), cols=(0, 1), rows=(1, 2, 3, 4, 5)),
            places(pages=(0, 1), cols=(0, 1), rows=(0, 1, 2, 3, 4, 5), lines=(0, 1)), 7, 6, targets=U, texts=TEXT_URL,
            simulate=8000 if deep else 800),
        job("long one column", [5], places(pages=(0, 1, 2), rows=(1, 2, 3, 4, 5)),
            places(pages=(0, 1, 2), cols=(0, 1), rows=(0, 1, 2, 3, 4, 5), lines=(0, 1)), 5, 5, targets=U, texts=TEXT_URL,
            simulate=5000 if deep else 500),
        job("unusual", [2], places(rows=(1, 3)), places(rows=(1, 2), lines=(1,)), 2, 1, minkeys=2,
            strange=[*STRANGE_DESTS, *STRANGE_LINKS, *STRANGE_PAGES, *SAME, *OLD]),
        job("unusual in three columns", [4], right + places(rows=(1,)), places(cols=(0, 1), rows=(2,), lines=(0,)), 4, 1, minkeys=4,
            strange=["link without action", "fit width", "bytes", "flat", "missing page", "other destinations"]),
    ]
    cases = []
    for (m, c, kw), r in zip(jobs, chk.tlc_many(jobs)):
        recs = list({json.dumps(x, sort_keys=True): x for x in r.records}.values())
        cap = 15000 if deep else 1200
        chk.extra["two columns in " + kw["label"]] = sum(1 for x in recs if x["two"])
        if len(recs) > cap:
            # as many with keys as possible
            recs = rng.sample(recs, cap)
        cases += recs
    for c in cases:
        # names in another order than the keys
        pool = ["k1", "Smith:2001ab", "a b", "Z", "0", "\u00e4\u00f6", "(x)", "cite.2", "long" * 20, "@y", "#1", "Jones:1999"]
        c["names"] = rng.sample(pool, len(c["keys"]))
    base = tempfile.mkdtemp(prefix="c19_")
    os.environ["C19_DIR"] = base
    try:
        outs = vt.pool_map(replay, cases, chunk=40)
    finally:
        shutil.rmtree(base)
    for c, o in zip(cases, outs):
        chk.validated += 1
        want = [[[c["names"][x["key"] - 1]] if x["key"] else None, x["urls"] or None] for x in c["out"]]
        plain = [[None, r or None] for r in c["recs"]]
        s = c["strange"]
        if s in OLD or s in STRANGE_DESTS:
            allowed = [plain] + ([want] if s in OLD or s in ("page number", "left 0") else [])
        elif s in STRANGE_LINKS or s in STRANGE_PAGES:
            allowed = [plain, want]
            if "Annots" in STRANGE_PAGES.get(s, ""):
                # the links of that page are gone
                # (pdftotext gives up on pages whose annotations are no array)
                allowed.append([])
                allowed.append([[k, r or None] for (k, u), r in zip(want, c["recs"])])
        else:
            allowed = [want]
        detail = {"records": len(c["recs"]), "keys": [dict(k, name=n) for k, n in zip(c["keys"], c["names"])], "links": c["links"],
                  "unusual": s, "two columns": c["two"], "expected": allowed, "got": o}
        if chk.validated % 1301 == 5:
            chk.sample(detail)
        if "ok" not in o:
            chk.violation("the extraction fails on a PDF", detail)
        elif o["ok"] not in allowed:
            chk.violation("other keys or links than those of the references", detail)


if __name__ == "__main__":
    vt.main("C19", body)
