"""C18: the linker callback (spec/Linker.tla)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import kb, refline as R, vt  # noqa: E402

KINDS = ["AUTH", "COLLABORATION", "QUOTED", "JOURNAL", "ARXIV", "REPORTNUMBER", "DOI", "URL", "HDL", "ISBN", "PUBLISHER", "BOOK"]
INVS = ["RecidIsAnAnswer", "NoIdWithoutAnswer", "OnePerRecord", "NoneLost", "LEmit"]
# what a callback needs to know about an element to look it up
FIELDS = {"AUTH": ["auth_txt"], "COLLABORATION": ["collaboration"], "QUOTED": ["title"], "JOURNAL": ["title", "volume", "year", "page"],
          "ARXIV": ["report_num"], "REPORTNUMBER": ["report_num"], "DOI": ["doi_string"], "URL": ["url_string"], "HDL": ["hdl_id"],
          "ISBN": ["ISBN"], "PUBLISHER": ["publisher"], "BOOK": ["title"]}
PREFIX = {"DOI": "doi:", "HDL": "hdl:"}
ERRORS = {"KeyError": KeyError, "IndexError": IndexError, "ValueError": ValueError, "RuntimeError": RuntimeError}


def constant(answer, **other):
    b = {k: [answer, answer] for k in KINDS}
    b.update(other)
    return b


def behaviours(deep):
    out = [constant("id"), constant("none"), constant("KeyError"), constant("IndexError"), constant("zero"), constant("empty")]
    for k in KINDS:
        out.append(constant("none", **{k: ["id", "id"]}))
        out.append(constant("id", **{k: ["none", "none"]}))
        out.append(constant("KeyError", **{k: ["id", "id"]}))
        out.append(constant("none", **{k: ["ValueError", "ValueError"]}))
    for a, b in (("id", "none"), ("none", "id"), ("KeyError", "id"), ("id", "IndexError"), ("id", "zero"), ("none", "ValueError"),
                 ("RuntimeError", "id")):
        out.append({k: [a, b] for k in KINDS})
        for k in ("JOURNAL", "DOI", "AUTH", "BOOK"):
            out.append(constant("none", **{k: [a, b]}))
    return out


def replay(case):
    from refextract.references.api import extract_references_from_string
    asked, counts, bad = [], {}, []

    def linker(el):
        kind = "ARXIV" if el.get("is_arxiv") else el["type"]
        if kind not in FIELDS:
            return None
        missing = [f for f in FIELDS[kind] if not isinstance(el.get(f), str)]
        if missing:
            bad.append([kind, missing])
            return None
        key = PREFIX.get(kind, "") + "/".join(el[f] for f in FIELDS[kind])
        name = "r:%s:%s" % (kind, key)
        asked.append(name)
        counts[name] = counts.get(name, 0) + 1
        answer = case["beh"][kind][0 if counts[name] == 1 else 1]
        if answer in ERRORS:
            raise ERRORS[answer](name)
        return {"id": name, "none": None, "zero": 0, "empty": ""}[answer]

    res = vt.guarded(lambda: extract_references_from_string(case["line"], override_kbs_files=kb.SMALL, linker_callback=linker))
    res["asked"], res["bad"] = sorted(set(asked)), bad
    return res


def body(chk):
    deep = vt.tier() == "thorough"
    every = behaviours(deep)
    beh = vt.Raw("{" + ", ".join(vt.tla_value(b) for b in every) + "}")
    main_ = [R.SMITH, R.JONES, R.PRD, R.IBID, R.NUM, R.DOI, R.ARX, R.REP, R.BOOKTEXT, R.Y2008, R.ATLAS]
    rest = [R.ATLAS, R.QUOTED, R.URL, R.HDL, R.ISBN, R.PUB, R.BOOK, R.JHEP, R.HEP, R.FOO]

    def job(label, pieces, seps, n, simulate=None, beh=beh, tails=("",)):
        c = R.constants(pieces, seps, n, tails=tails)
        c["Behaviours"] = beh
        kw = dict(init="LInit", next_="LLong" if simulate else "LNext", invariants=INVS, label=label)
        if simulate:
            kw.update(simulate=simulate, depth=n + 8)
        return ("Linker", c, kw)

    few = vt.Raw("{" + ", ".join(vt.tla_value(b) for b in every[:6] + every[-35::5]) + "}")
    jobs = [job("two elements", main_ + rest[1:], ["; ", ", "], 2), job("three elements", main_, ["; "], 3, beh=few),
            job("long lines", main_ + rest[1:], R.CORE_SEPS, 7, simulate=20000 if deep else 1500),
            job("longer lines", main_, ["; ", ", "], 5, simulate=20000 if deep else 1500)]
    cases = []
    for r in chk.tlc_many(jobs):
        cases += r.records
    for c in cases:
        c["number"] = "1"
    for c, o in zip(cases, vt.pool_map(replay, cases, chunk=200)):
        chk.validated += 1
        want = R.expected(c)
        for rec, rid in zip(want, c["recid"]):
            if rid:
                rec["recid"] = [rid]
        if chk.validated % 9973 == 1:
            chk.sample({"line": c["line"], "answers": c["beh"], "records": want, "error": c["failed"]})
        if c["failed"]:
            if o.get("exc") != c["failed"]:
                chk.violation("an error of the callback does not reach the caller", {
                    "line": c["line"], "beh": c["beh"], "expected": c["failed"], "got": o.get("ok", o)})
            continue
        if o["bad"]:
            chk.violation("the callback is asked with incomplete information", {
                "line": c["line"], "beh": c["beh"], "expected": None, "got": o["bad"]})
        if o["asked"] != sorted(c["asked"]):
            chk.violation("the callback is not asked about every element, or about something else", {
                "line": c["line"], "beh": c["beh"], "expected": sorted(c["asked"]), "got": o["asked"]})
        if o.get("ok") != want:
            chk.violation("records differ from the specification", {
                "line": c["line"], "beh": c["beh"], "expected": want, "got": o.get("ok", o)})
    plain = {}
    for c in cases:
        plain.setdefault(c["line"], c)
    R.compare(chk, list(plain.values())[::7], "records differ without a callback")


if __name__ == "__main__":
    vt.main("C18", body)
