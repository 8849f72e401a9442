"""C20: knowledge bases in all their forms (spec/KbLoad.tla, spec/KbNames.tla, spec/KbReports.tla, spec/KbBooks.tla,
spec/KbOverride.tla)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import kbload as L, vt  # noqa: E402

WORDS = ["NOVA", "ACTA", "GEOPHYSICA", "B", "GROSS", "ÉTUDES", "ALT", "NOVAS", "INNOVA", "ACT"]


def std(name, words, series=""):
    return {"name": name, "words": words, "series": series}


S = {
    "Mun.": std("Mun.", ["MUN"]), "Mun.Act.": std("Mun.Act.", ["MUN", "ACT"]), "Geo.": std("Geo.", ["GEO"]),
    "Nova": std("Nova", ["NOVA"]), "Mun.;B": std("Mun.", ["MUN", "B"], "B"), "Act.Geo.": std("Act.Geo.", ["ACT", "GEO"]),
    "Acta Nova": std("Acta Nova", ["ACTA", "NOVA"]), "Et.": std("Et.", ["ET"]),
}
T = {
    "n": ["NOVA"], "a": ["ACTA"], "na": ["NOVA", "ACTA"], "an": ["ACTA", "NOVA"], "nb": ["NOVA", "B"], "nab": ["NOVA", "ACTA", "B"],
    "ag": ["ACTA", "GEOPHYSICA"], "nag": ["NOVA", "ACTA", "GEOPHYSICA"], "g": ["GEOPHYSICA"], "e": ["ÉTUDES"], "en": ["ÉTUDES", "NOVA"],
}
LEN = {w: len(w) for w in WORDS + ["MUN", "ACT", "GEO", "ET"]}
INVS = ["LongestAtAPlace", "AllTitlesAlone", "Emit"]


def spec(label, titles, standards, entries, ref_words, max_ref, forms=("dict",), keys=("upper",), rstyles=("title",), noise=(),
         max_noise=0, pairing=None, simulate=None):
    kw = dict(invariants=INVS, label=label)
    if simulate:
        kw.update(simulate=simulate, depth=entries + max_noise + max_ref + 2)
    return ("KbLoad", {
        "Titles": {tuple(T[t]) for t in titles}, "Standards": vt.set_of([S[s] for s in standards]),
        "Pairing": {(tuple(T[t]), S[s]["name"]) for t, s in (pairing or [])}, "MaxEntries": entries, "Forms": set(forms),
        "KeyStyles": set(keys), "Noise": set(noise), "MaxNoise": max_noise, "RefWords": set(ref_words), "MaxRef": max_ref,
        "RefStyles": set(rstyles), "Series": {"B"}, "WordLen": vt.Raw("(" + " @@ ".join(
            "%s :> %d" % (vt.tla_value(w), n) for w, n in LEN.items()) + ")")}, kw)


FILES = ["file", "file-spaces", "file-no-newline", "file-crlf"]
STYLES = ["upper", "lower", "title", "dotted", "hyphen", "spaces", "packed"]


def journals(chk, deep):
    pairs = [("n", "Mun."), ("a", "Nova"), ("na", "Mun.Act."), ("nab", "Mun.;B"), ("ag", "Act.Geo."), ("nag", "Geo."), ("nb", "Mun.;B"),
             ("an", "Acta Nova"), ("g", "Geo.")]
    names = sorted({s for _, s in pairs})
    titles = [t for t, _ in pairs]
    n = 4 if deep else 3
    jobs = [
        spec("titles inside each other", titles[:7], names, 2, ["NOVA", "ACTA", "GEOPHYSICA", "B"], n, pairing=pairs),
        spec("three titles", ["n", "na", "nab", "ag"] + (["nb", "a"] if deep else []), names, 3, ["NOVA", "ACTA", "GEOPHYSICA", "B"], 3,
             pairing=pairs),
        spec("standard names", ["n", "an", "g"], ["Mun.", "Nova", "Acta Nova", "Mun.;B"], 2, ["NOVA", "ACTA", "MUN", "GEOPHYSICA", "B"], 2),
        spec("forms and repeated entries", ["n", "na"], ["Mun.", "Mun.Act."], 2, ["NOVA", "ACTA"], 2,
             forms=["dict", "list", "lists", "tuple"] + FILES, keys=["upper", "title"]),
        spec("parts of words", ["n", "na", "a"], ["Mun.", "Mun.Act."], 2, ["NOVA", "NOVAS", "INNOVA", "ACTA", "ACT"], n),
        spec("ways of writing", ["n", "na", "nab", "en"], ["Mun.Act.", "Et."], 1, ["NOVA", "ACTA", "B", "ÉTUDES"], 3,
             keys=STYLES, rstyles=STYLES, forms=["dict", "file"]),
        spec("comments and malformed lines", ["n", "na"], ["Mun.", "Mun.Act."], 2, ["NOVA", "ACTA"], 1, forms=FILES,
             noise=["comment", "bad"], max_noise=2),
        spec("larger", titles, names, 8, ["NOVA", "ACTA", "GEOPHYSICA", "B", "ÉTUDES"], 6, forms=["dict", "list"] + FILES, keys=STYLES,
             rstyles=STYLES, noise=["comment"], max_noise=2, simulate=20000 if deep else 1500),
    ]
    cases = []
    for r in chk.tlc_many(jobs, parallel=4):
        cases += r.records
    chk.extra["knowledge bases of journals with a reference"] = len(cases)
    for c, o in zip(cases, vt.pool_map(L.run, cases)):
        chk.validated += 1
        want, got = L.expected(c), L.observed(o)
        if chk.validated % 4999 == 1:
            chk.sample({"kb": L.entries(c), "form": c["form"], "line": L.line(c), "result": want})
        if want != got:
            chk.violation("a journal is not what the knowledge base says", {
                "knowledge base": L.entries(c), "form": c["form"], "noise": c["noise"], "line": L.line(c), "expected": want, "got": got,
                "answer": o})


def names(chk, deep):
    inv = ["OnlyKnown", "AloneFound", "Emit"]
    n = 4 if deep else 3
    words = {"PLOVER", "PRESS", "QUALITY", "PLOVERS", "XPLOVER", "PRESSES"}
    pubs = {("PLOVER",), ("PLOVER", "PRESS"), ("QUALITY", "PLOVER", "PRESS"), ("PRESS", "QUALITY")}
    jobs = [
        ("publishers", ("KbNames", {"Names": pubs, "Repls": {"Pl."}, "Forms": {"dict"}, "MaxEntries": 3, "Words": words, "MaxRef": n, "Gaps": {" "}},
                        dict(invariants=inv, label="publishers"))),
        ("publishers", ("KbNames", {"Names": {("PLOVER",), ("PLOVER", "PRESS")}, "Repls": {"Pl.", "Q-P"}, "Forms": {"dict", "list", "file"}, "MaxEntries": 2, "Words": words - {"QUALITY"}, "MaxRef": 2,
                                    "Gaps": {" ", ", ", " - "}}, dict(invariants=inv, label="publishers, forms"))),
        ("collaborations", ("KbNames", {"Names": {("ALPHA",), ("BETA",), ("H1",)}, "Repls": {"A"}, "Forms": {"dict", "list", "file"}, "MaxEntries": 3,
                                        "Words": {"ALPHA", "ALPHAS", "XALPHA", "BETA", "H1", "H12"}, "MaxRef": n - 1, "Gaps": {", ", " ("} if not deep else {", ", " ", " ("}},
                            dict(invariants=inv, label="collaborations"))),
        ("publishers", ("KbNames", {"Names": pubs, "Repls": {"Pl.", "Q-P"}, "Forms": {"dict", "list", "file"}, "MaxEntries": 4, "Words": words, "MaxRef": 8,
                                    "Gaps": {" ", ", ", " - "}}, dict(invariants=inv, label="publishers, long", simulate=1500 if deep else 40, depth=14))),
    ]
    cases = []
    for (kind, _), r in zip(jobs, chk.tlc_many([j for _, j in jobs], parallel=4)):
        cases += [dict(c, kind=kind) for c in r.records]
    chk.extra["knowledge bases of names with a reference"] = len(cases)
    for c, o in zip(cases, vt.pool_map(L.names_run, cases)):
        chk.validated += 1
        want, got = L.names_expected(c), L.names_observed(c, o)
        if want != got:
            chk.violation("the names found are not those of the knowledge base", {
                "kind": c["kind"], "knowledge base": c["kb"], "form": c["form"], "line": L.names_line(c), "expected": want, "got": got,
                "answer": o})


def reports(chk, deep):
    inv = ["OnlyPattern", "UnknownCategory", "Emit"]
    cat = lambda words, std: {"words": words.split(), "std": std}  # noqa: E731
    cats = [cat("XYRP", "XY-RP"), cat("XY RP", "XY-RP"), cat("XYSP", "XYs"), cat("XYRP", "Rp")]
    pats = ["s9999", "s99", "syyyysd3", "syysd3", "sd3", "as99", "yyyyd3a", "s9as99", "syysyysd3", "s9cc"]
    atoms = lambda p: tuple(x for x in __import__("re").findall("yyyy|yy|d3|cc|9|a|s", p))  # noqa: E731
    d = lambda p: tuple({"9": "d9"}.get(x, x) for x in atoms(p))  # noqa: E731
    nums = [("1234",), ("12",), ("2001", "123"), ("98", "123"), ("98", "1"), ("123",), ("B", "12"), ("2001", "7A"), ("7A", "12"), ("98", "12", "345"), ("2001", "98")]

    def spec(label, cats, pats, insts, lines, forms, refcats, nums, gaps, **kw):
        return ("KbReports", {"Categories": vt.set_of(cats), "Patterns": {d(p) for p in pats}, "MaxInstitutes": insts, "MaxLines": lines,
                              "Forms": set(forms), "Cats": {tuple(c.split()) for c in refcats}, "Numbers": set(nums), "Gaps": set(gaps)},
                dict(kw, invariants=inv, label=label))
    jobs = [
        spec("patterns", cats[:1], pats, 1, 4 if deep else 3, ["list"], ["XYRP"], nums, ["-"]),
        spec("ways of writing", cats[:2], pats[:3], 1, 2, ["list"], ["XYRP", "XY RP", "XYRPX", "AXYRP"], nums[:3], ["-", " ", "", "/"]),
        spec("forms", cats[:3], pats[:3], 1, 3, ["list", "tuple", "file", "file-spaces"], ["XYRP", "XY RP", "XYRPX", "AXYRP"], nums[:3], ["-", ""]),
        spec("institutes", cats if deep else cats[:1] + cats[2:], pats[:4], 2, 5 if deep else 4, ["list"], ["XYRP", "XYSP"], nums[1:4], ["-"]),
        spec("many", cats, pats, 3, 12, ["list", "file"], ["XYRP", "XY RP", "XYSP"], nums, ["-", " "], simulate=3000 if deep else 60, depth=18),
    ]
    cases = []
    for r in chk.tlc_many(jobs, parallel=4):
        cases += r.records
    chk.extra["knowledge bases of report numbers with a reference"] = len(cases)
    for c, o in zip(cases, vt.pool_map(L.reports_run, cases)):
        chk.validated += 1
        if chk.validated % 4999 == 1:
            chk.sample({"kb": L.reports_rows(c), "form": c["form"], "text": c["text"], "number": c["number"]})
        if not L.reports_ok(c, o):
            chk.violation("a report number is not what the knowledge base says", {
                "knowledge base": L.reports_rows(c), "form": c["form"], "text": c["text"], "expected": c["number"], "answer": o})


def books(chk, deep):
    titles = ["FROBNICATION", "FROBNICATION AND GRAVITY", "GRAVITY", "A LONG INTRODUCTION TO THE THEORY OF FROBS AND GRAVITY",
              "A LONG INTRODUCTION TO THE THEORY OF FROBS AND OTHERS", "КВАНТОВАЯ МЕХАНИКА"]
    jobs = [("KbBooks", {"Titles": {tuple(t.split()) for t in titles}, "Years": {"1999", "2001"}, "MaxBooks": 3 if deep else 2,
                         "Forms": {"list", "lists", "file"}, "Styles": {"title", "upper", "lower"}},
             dict(invariants=["OneBook", "OnlyWholeTitles", "Emit"], label="books"))]
    cases = [c for r in chk.tlc_many(jobs) for c in r.records]
    chk.extra["knowledge bases of books with a reference"] = len(cases)
    for c, o in zip(cases, vt.pool_map(L.books_run, cases)):
        chk.validated += 1
        want, got = L.books_expected(c), L.books_observed(o)
        if want != got:
            chk.violation("a book is not what the knowledge base says", {
                "knowledge base": c["kb"], "form": c["form"], "line": L.books_line(c), "expected": want, "got": got, "answer": o})


WAYS = {"object", "list", "file", "file-comments", "none"}


def overrides(chk, deep):
    kinds = set(L.CUSTOM)
    inv = ["ExactlyTheNamedOnes", "ErrorsAreNoticed", "Emit"]
    jobs = [("KbOverride", {"Kinds": kinds, "Ways": WAYS | {"malformed"}, "Malformed": set(L.MALFORMED), "MaxGiven": 1}, dict(invariants=inv, label="one")),
            ("KbOverride", {"Kinds": kinds, "Ways": {"object"} if not deep else {"object", "file", "none"}, "Malformed": set(), "MaxGiven": 8 if not deep else 3},
             dict(invariants=inv, label="all subsets" if not deep else "up to three, all ways"))]
    one, many = [r.records for r in chk.tlc_many(jobs)]
    none = [c for c in one if set(c["given"].values()) == {"absent"}]
    single = {k: c for c in one for k in kinds if c["given"][k] == "object" and list(c["given"].values()).count("absent") == 7}
    order = sorted(single)
    first = vt.pool_map(L.probe, [none[0]] + [single[k] for k in order], chunk=1)
    want = {(k, "default"): first[0][k] for k in kinds}
    want.update({(k, "custom"): o[k] for k, o in zip(order, first[1:])})
    for k in kinds:
        if want[(k, "default")] == want[(k, "custom")] or any("ok" not in want[(k, x)] for x in ("default", "custom")):
            chk.violation("a custom knowledge base has no effect", {"kind": k, "line": L.PROBES[k], "answer": want[(k, "custom")]})
    cases = one + many + [dict(none[0], empty=True)]
    # neighbours in the order share most knowledge bases, which saves loading them
    cases.sort(key=lambda c: sorted(c["given"].items(), key=lambda x: ("journals", "books", "report-numbers").index(x[0])
                                    if x[0] in ("journals", "books", "report-numbers") else 9))
    chk.extra["combinations of overridden knowledge bases"] = len(cases)
    for c, o in zip(cases, vt.pool_map(L.probe, cases, chunk=16)):
        for k in kinds:
            chk.validated += 1
            if "error" in c["used"].values():
                if "ok" in o[k]:
                    chk.violation("a malformed knowledge base is accepted", {"given": c["given"], "line": L.PROBES[k], "got": o[k]})
            elif o[k] != want[(k, c["used"][k])]:
                chk.violation("a knowledge base in some form is not used as the same one in another form, or in place of another kind", {
                    "given": c["given"], "kind": k, "line": L.PROBES[k], "expected": want[(k, c["used"][k])], "got": o[k]})


def main(chk):
    deep = vt.tier() == "thorough"
    journals(chk, deep)
    names(chk, deep)
    reports(chk, deep)
    books(chk, deep)
    overrides(chk, deep)


if __name__ == "__main__":
    vt.main("C20", main)
