"""Replay of knowledge bases written by spec/KbLoad.tla and spec/KbOverride.tla."""
import os
import shutil
import tempfile

from lib import kb, vt

NUMBERS = "5 (1994) 6"
OTHER = {k: v for k, v in kb.SMALL.items() if k != "journals"}


def write(words, style):
    if style == "upper":
        return " ".join(words)
    if style == "lower":
        return " ".join(w.lower() for w in words)
    title = [w[0] + w[1:].lower() for w in words]
    if style == "title":
        return " ".join(title)
    if style == "dotted":
        return " ".join(w + "." if len(w) > 1 else w for w in title)
    if style == "packed":
        return "".join(w + "." for w in title[:-1]) + (title[-1] + "." if len(title[-1]) > 1 else title[-1])
    if style == "hyphen":
        return "-".join(title)
    if style == "spaces":
        return "  ".join(title)
    raise ValueError(style)


def entries(case):
    return [(write(e["t"], case["style"]), e["s"]["name"] + (";" + e["s"]["series"] if e["s"]["series"] else "")) for e in case["kb"]]


def text(case):
    rows = entries(case)
    lines, at = [], {}
    for n in case["noise"]:
        at.setdefault(n["at"], []).append(n["kind"])
    sep = {"file-spaces": "   ---  "}.get(case["form"], "---")
    pad = {"file-spaces": ("  ", " \t")}.get(case["form"], ("", ""))
    for i in range(len(rows) + 1):
        for k in at.get(i, []):
            lines.append("# comment --- not an entry" if k == "comment" else "no separator in this line")
        if i < len(rows):
            lines.append(pad[0] + rows[i][0] + sep + rows[i][1] + pad[1])
    eol = "\r\n" if case["form"] == "file-crlf" else "\n"
    return eol.join(lines) + ("" if case["form"] == "file-no-newline" else eol)


def line(case):
    return "[1] " + write(case["ref"], case["rstyle"]) + " " + NUMBERS


def run(case):
    from refextract.references import api
    form, folder = case["form"], None
    rows = entries(case)
    try:
        if form == "dict":
            source = dict(rows)
        elif form == "list":
            source = rows
        elif form == "lists":
            source = [list(x) for x in rows]
        elif form == "tuple":
            source = tuple(rows)
        else:
            folder = tempfile.mkdtemp(prefix="vt_kbload_")
            source = os.path.join(folder, "journals.kb")
            with open(source, "w", encoding="utf-8", newline="") as fh:
                fh.write(text(case))
        kbs = dict(OTHER, journals=source)
        return vt.guarded(lambda: api.extract_references_from_string(line(case), override_kbs_files=kbs))
    finally:
        if folder:
            shutil.rmtree(folder, ignore_errors=True)


def expected(case):
    r = case["result"]
    if case["broken"]:
        return "error"
    if not r["title"]:
        return []
    return [[[r["title"]], [r["volume"] + "5"], ["1994"], ["6"]]]


def observed(res):
    if "ok" not in res:
        return "error"
    return [[rec.get(k) for k in ("journal_title", "journal_volume", "journal_year", "journal_page")]
            for rec in res["ok"] if "journal_title" in rec]


# --------------------------------------------------------------- overrides
CUSTOM = {
    "journals": {"XYZZY": "Xyz.", "PHYS REV D": "Phys. Rev. D", "XYZZY NOVA": "Xyz.Nov."},
    "journals_re": ["PLUGH---Plu.", "PLOUGH---Plo."],
    "report-numbers": ["*****XY*****", "<s 9999>", "<syyyys999>", "XYRP---XY-RP", "XYSP---XY-SP", "*****YX*****", "<s 99>", "YXRP---YX-RP"],
    "authors": ["Plotz---Platz", "Plitz---Platz"],
    "collaborations": {"QUUX COLLABORATION": "QUUX", "QUUX GROUP": "QUUX", "FRED": "FRED"},
    "books": [("Zed, K.", "The book of frobs", "1999"), ("Zed, K.", "Frobnication", "2001"), ("Ландау, Л.", "Квантовая механика", "2001")],
    "publishers": {"PLOVER PRESS": "Plover Pr.", "PLOVER": "Plover", "QUALITY PLOVER PRESS": "QPP"},
    "special_journals": ["Xyz.Other.", "Phys. Rev. D"],
}
PROBES = {
    "journals": "[1] Xyzzy 5 (1994) 6; Acta Phys. Pol. 7 (1995) 8; Xyz. Nov. 7 (1996) 9",
    "journals_re": "[1] Plugh 5 (1994) 6; DAN 7 (1995) 8; Plough 6 (1996) 8",
    "report-numbers": "[1] XYRP-1234; CERN-TH-2000-123; XYSP-2001-123; YXRP-12",
    "authors": "[1] K. Plotz, unpublished\n[2] P. Plitz, unpublished",
    "collaborations": "[1] QUUX Collaboration, ALEPH Collaboration, unpublished\n[2] FRED, unpublished\n[3] QUUX group, unpublished",
    "books": "[1] K. Zed, \"The book of frobs\"; G. 't Hooft, \"Fifty years of Yang-Mills theory\"\n[2] K. Zed, Frobnication, 2001",
    "publishers": "[1] K. Foo, Plover Press, 1999; K. Bar, Birkhaeuser, 1998\n[2] K. Foo, Quality Plover Press, 1999\n"
                  "[3] K. Foo, Plover, 1999",
    "special_journals": "[1] Phys. Rev. D 7 (1999) 8",
}
MALFORMED = ("journals", "journals_re", "collaborations", "publishers")     # every line of a file has to be an entry


def custom(kind, way, folder):
    value = CUSTOM[kind]
    if way == "none":
        return None
    if way == "object":
        return value
    if way == "list":
        return list(value.items()) if isinstance(value, dict) else tuple(value)
    if isinstance(value, dict):
        lines = ["%s---%s" % x for x in value.items()]
    elif kind == "books":
        lines = ["|".join(x) + ";" for x in value]
    else:
        lines = list(value)
    if way == "file-comments" and kind != "books":
        lines = [x for n, y in enumerate(lines) for x in ("# comment %d --- %s" % (n, y), y)] + ["# end"]
    if way == "malformed" and kind in MALFORMED:
        lines.insert(1, "there is no entry here")
    if way == "file-comments" and kind == "special_journals":
        lines = [x + "  " for x in lines] + [""]
    path = os.path.join(folder, kind + ".kb")
    with open(path, "w", encoding="utf-8") as fh:
        fh.write("\n".join(lines) + "\n")
    return path


def probe(case):
    """Answers to all probes with some knowledge bases given."""
    from refextract.references import api
    folder = tempfile.mkdtemp(prefix="vt_kbload_")
    try:
        kbs = {k: custom(k, w, folder) for k, w in case["given"].items() if w != "absent"}
        arg = kbs if kbs or case.get("empty") else None
        return {k: vt.guarded(lambda p=p: api.extract_references_from_string(p, override_kbs_files=arg)) for k, p in PROBES.items()}
    finally:
        shutil.rmtree(folder, ignore_errors=True)


# ------------------------------------------------------- names (spec/KbNames.tla)
def names_line(case):
    return "[1] foo" + "".join(w["g"] + w["w"].capitalize() for w in case["ref"]) + ", bar"


def names_run(case):
    from refextract.references import api
    rows = [(" ".join(e["n"]), e["r"]) for e in case["kb"]]
    folder = None
    try:
        if case["form"] == "dict":
            source = dict(rows)
        elif case["form"] == "list":
            source = rows
        else:
            folder = tempfile.mkdtemp(prefix="vt_kbload_")
            source = os.path.join(folder, "names.kb")
            with open(source, "w", encoding="utf-8") as fh:
                fh.write("".join("%s---%s\n" % x for x in rows))
        kbs = dict(OTHER, **{case["kind"]: source})
        return vt.guarded(lambda: api.extract_references_from_string(names_line(case), override_kbs_files=kbs))
    finally:
        if folder:
            shutil.rmtree(folder, ignore_errors=True)


def names_expected(case):
    if case["kind"] == "publishers":
        return case["found"]
    words = [w["w"].capitalize() for w in case["ref"] if [w["w"]] in [e["n"] for e in case["kb"]]]
    return [w for i, w in enumerate(words) if w not in words[:i]]     # reported as written, once


def names_observed(case, res):
    if "ok" not in res:
        return "error"
    return [v for rec in res["ok"] for v in rec.get(case["kind"][:-1], [])]


# ----------------------------------------------- report numbers (spec/KbReports.tla)
def reports_rows(case):
    rows = []
    for n, inst in enumerate(case["kb"]):
        rows.append("*****INST %d*****" % n)
        cats = ["%s---%s" % (" ".join(c["words"]), c["std"]) for c in inst["cats"]]
        pats = ["<%s>" % p for p in inst["pats"]]
        if case["form"] == "file-spaces":
            cats = ["%s   ---   %s  " % (" ".join(c["words"]), c["std"]) for c in inst["cats"]]
        rows += cats + pats if case["form"] in ("list", "file-spaces") else pats + cats
    return rows


def reports_run(case):
    from refextract.references import api
    rows = reports_rows(case)
    folder = None
    try:
        if case["form"] == "list":
            source = rows
        elif case["form"] == "tuple":
            source = tuple(rows)
        else:
            folder = tempfile.mkdtemp(prefix="vt_kbload_")
            source = os.path.join(folder, "reports.kb")
            with open(source, "w", encoding="utf-8") as fh:
                fh.write("".join("# %s\n%s\n" % (x, x) for x in rows))
        kbs = dict(OTHER, **{"report-numbers": source})
        return vt.guarded(lambda: api.extract_references_from_string("[1] foo, %s, bar" % case["text"], override_kbs_files=kbs))
    finally:
        if folder:
            shutil.rmtree(folder, ignore_errors=True)


def reports_ok(case, res):
    if "ok" not in res:
        return False
    got = [v for rec in res["ok"] for v in rec.get("reportnumber", [])]
    if not case["number"]:
        return got == []
    return got == [case["number"]] and [rec.get("misc") for rec in res["ok"]] == [["foo", "bar"]]


# ------------------------------------------------------------------- books
def books_rows(case):
    return [("Zed, K.", write(b["title"], "title"), b["year"]) for b in case["kb"]]


def books_line(case):
    return '[1] K. Miller, "%s", unpublished' % write(case["ref"], case["style"])


def books_run(case):
    from refextract.references import api
    rows, folder = books_rows(case), None
    try:
        if case["form"] == "list":
            source = rows
        elif case["form"] == "lists":
            source = [list(x) for x in rows]
        else:
            folder = tempfile.mkdtemp(prefix="vt_kbload_")
            source = os.path.join(folder, "books.kb")
            with open(source, "w", encoding="utf-8") as fh:
                fh.write("".join("|".join(x) + ";\n" for x in rows))
        kbs = dict(OTHER, books=source)
        return vt.guarded(lambda: api.extract_references_from_string(books_line(case), override_kbs_files=kbs))
    finally:
        if folder:
            shutil.rmtree(folder, ignore_errors=True)


def books_expected(case):
    if case["book"]:
        return [[[write(case["ref"], "title")], [case["year"]]]]
    return [[[write(case["ref"], case["style"])], None]]


def books_observed(res):
    return [[rec.get("title"), rec.get("year")] for rec in res["ok"]] if "ok" in res else "error"
