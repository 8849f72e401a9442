"""C15: journal numeration (spec/Numeration.tla, spec/Proceedings.tla)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import kb, vt  # noqa: E402

INVS = ["LetterFirst", "ArabicVolume", "YearCounted", "Emit"]


def C(title, names, vol, year, page, letter="", inname="", roman="", end="", special=False):
    return dict(title=title, names=vt.set_of(names), letter=letter, inname=inname, vol=vol, roman=roman, year=year, page=page, end=end, special=special)


def lit(c):
    return "[" + ", ".join("%s |-> %s" % (k, v if isinstance(v, vt.Raw) else vt.tla_value(v)) for k, v in c.items()) + "]"


VPY, VYP, YVP, VP = (["title", "vol", "page", "year"], ["title", "vol", "year", "page"],
                     ["title", "year", "vol", "page"], ["title", "vol", "page"])
YTVP = ["year", "title", "vol", "page"]
NONE = {"t": "", "misc": ""}


def job(label, cits, orders, vol=("50",), year=("(1994)",), page=("123",), letter=("D50",), seps=(", ", " "),
        title_seps=(" ", ", "), fronts=(NONE,), backs=(NONE,)):
    return ("Numeration", {
        "Cits": vt.Raw("{" + ", ".join(lit(c) for c in cits) + "}"), "Orders": vt.set_of(orders), "VolStyles": set(vol), "YearStyles": set(year),
        "PageStyles": set(page), "LetterStyles": set(letter), "Seps": set(seps), "TitleSeps": set(title_seps),
        "Fronts": vt.set_of(fronts), "Backs": vt.set_of(backs)},
        dict(invariants=INVS, label=label))


def expected(c):
    r = c["report"]
    if not r["title"]:
        return [{"linemarker": ["1"], "raw_ref": [c["line"]], "misc": r["misc"], "year": [r["year"]]}]
    ref = r["title"] + " " + r["volume"] + " (%s)" % r["year"] + " " + r["page"]
    d = {"linemarker": ["1"], "raw_ref": [c["line"]], "journal_title": [r["title"]], "journal_volume": [r["volume"]],
         "journal_page": [r["page"]], "journal_reference": [ref]}
    if r["year"]:
        d["journal_year"] = [r["year"]]
        d["year"] = [r["year"]]
    if r["misc"]:
        d["misc"] = r["misc"]
    return [d]


def replay(case):
    from refextract.references.api import extract_references_from_string
    return vt.guarded(lambda: extract_references_from_string(case["line"], override_kbs_files=kb.SMALL))


PR = C("Phys.Rev.", ["Phys. Rev."], "50", "1994", "123", letter="D")
PRE = C("Phys.Rev.", ["Phys. Rev."], "50", "1994", "123", letter="D", end="130")
PRD = C("Phys.Rev.", ["Phys. Rev. D", "Phys.Rev.D"], "50", "1994", "123", inname="D")
NPN = C("Nucl.Phys.", ["Nucl. Phys."], "12", "1990", "7", roman="XII", end="34")
NP9 = C("Nucl.Phys.", ["NUCL PHYS", "nucl. phys."], "4", "2003", "1234", roman="iv")
JHEP = C("JHEP", ["JHEP"], "1", "2001", "7", special=True)
JHEP12 = C("JHEP", ["JHEP"], "12", "1998", "045", special=True)
JHEPL = C("JHEP", ["JHEP"], "0904", "2009", "57", special=True)
ALLV = ["50", "vol. 50", "Vol. 50", "Vol.50", "v50", "No. 50", "50(3)", "50 (3)", "50 (3-4)", "50, No. 3",
        "50 no 12", "50-51", "50 [FS3]", "[FS3] 50", "50 (PM)", "roman"]
ALLY = ["(1994)", "1994", "(1994a)", "(July 1994)", "(Jul., 1994)", "May 1994"]
ALLP = ["123", "p123", "p.123", "p. 123", "pp. 123", "Pp.123", "123 - 130", "123 -130"]
ALLL = ["D50", "D 50", "D, 50", "D:50", "D-50", "50D", "50 D", "50, D"]
ALLS = [", ", " ", ":", ",", " : ", " , ", ": ", ""]

ALLT = [" ", ", ", ",", ": ", ", ", "  ", " , "]

FRONTS = [NONE, {"t": "foo, ", "misc": "foo"}, {"t": "see ", "misc": "see"}, {"t": "in: ", "misc": "in:"}, {"t": "(", "misc": ""}]
BACKS = [NONE, {"t": ".", "misc": ""}, {"t": ", foo", "misc": "foo"}, {"t": " and bar", "misc": "and bar"}, {"t": ")", "misc": ""},
         {"t": " [foo]", "misc": "[foo]"}]


def values(deep):
    out = []
    for letter in "ABCDEFGHMZ":
        out.append(C("Phys.Rev.", ["Phys. Rev."], "7", "2011", "99", letter=letter))
    for vol in ["1", "9", "10", "19", "99", "100", "199", "1234", "12345"]:
        out.append(C("Nucl.Phys.", ["Nucl. Phys."], vol, "1988", "5"))
    for year in ["1900", "1945", "1999", "2000", "2010", "2099"]:
        out.append(C("JHEP", ["JHEP"], "3", year, "12", special=True))
        out.append(C("Phys.Rev.", ["Phys. Rev. D"], "3", year, "12", inname="D"))
    for page in ["1", "12", "123", "1234", "12345", "123456", "L12", "R7", "12c", "B345"]:
        out.append(C("Nucl.Phys.", ["Nucl. Phys."], "33", "1990", page))
        out.append(C("Nucl.Phys.", ["Nucl. Phys."], "33", "1990", page, end="2345"))
        if page.isdigit():
            out.append(C("JHEP", ["JHEP"], "11", "2004", page, special=True))
    for n in range(1, 13):
        out.append(C("JHEP", ["JHEP"], str(n), "2007", "1", special=True))
        out.append(C("JHEP", ["JHEP"], "%02d" % n, "2007", "1", special=True))
    out.append(C("JINST", ["JINST"], "3", "2008", "P08003"))
    out.append(C("Dokl.Akad.Nauk Ser.Fiz.", ["DAN"], "3", "2008", "12"))
    return out


def proceedings(label, cons, forms, titles=("PoS",), inner=("",), seps=(" ",), fronts=(NONE,), backs=(NONE,)):
    return ("Proceedings", {
        "Contributions": vt.set_of([dict(zip(("conf", "confyear", "year", "page"), c)) for c in cons]), "Forms": vt.set_of(forms),
        "Titles": set(titles), "Inner": set(inner), "Seps": set(seps), "Fronts": vt.set_of(fronts), "Backs": vt.set_of(backs)},
        dict(invariants=["VolumeNamesConference", "AlwaysAYear", "Emit"], label=label))


LAT = ("LAT", "2007", "2008", "369")
CONFS = [LAT, ("ICHEP", "1999", "2000", "7"), ("a", "2010", "2010", "12"),
         ("Confinemen", "2012", "2013", "1234"), ("LATTICE", "2005", "2006", "012"), ("WC2", "2004", "2004", "1")]
PFORMS = [["year", "conf", "page"], ["conf", "year", "page"], ["conf", "page", "year"], ["(conf)", "page"]]
PSEPS = [" ", ", ", ",", ":", " : ", " - ", "-", "  ", ""]

ROMAN = [(10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")]


def roman(n):
    s = ""
    for v, t in ROMAN:
        while n >= v:
            s += t
            n -= v
    return s


def body(chk):
    deep = vt.tier() == "thorough"
    every = [VPY, VYP, YVP, VP]
    jobs = [
        job("styles", [PR, NPN, JHEP], every, ALLV, ALLY, ALLP, ALLL, seps=[", "], title_seps=[" "]),
        job("separators", [PRD, NP9, PRE], every, ["50"], ALLY, ["123", "p. 123"], ["D50", "50D"], seps=ALLS, title_seps=ALLT),
        job("styles and separators", [PR, NP9, JHEPL] if not deep else [PR, NP9, JHEPL, PRD, NPN], every,
            ["50", "Vol. 50", "50(3)", "roman"], ["(1994)", "1994"], ["123", "pp. 123"], ["D50", "D 50"],
            seps=[", ", " ", ":", ","] if not deep else ALLS, title_seps=[" ", ", "]),
        job("year before the title", [PR, NPN, JHEP12], [YTVP], ["50", "Vol. 50", "roman"], ["(1994)", "1994"], ALLP, ALLL,
            seps=[", ", " ", ","], title_seps=[" ", ", "]),
        job("surroundings", [PR, PRD, NPN, JHEP], every, ["50", "50(3)"], ["(1994)", "1994"], ["123", "p.123"], ["D50", "50D"],
            fronts=FRONTS, backs=BACKS),
        job("roman volumes", [C("Nucl.Phys.", ["Nucl. Phys."], str(n), "1990", "7", roman=f(roman(n))) for n in range(1, 40) for f in (str.upper, str.lower)],
            every, ["roman"], ["(1994)", "1994"], ["123"], title_seps=[" ", ", "]),
        job("pages that look like years", [C("Nucl.Phys.", ["Nucl. Phys."], "33", "1990", p) for p in ("1900", "1999", "2000")],
            [VPY, VYP], ["50"], ["(1994)"], ["123", "p. 123"], title_seps=[" ", ", "]),
        job("journals counted by year without a year", [C("JHEP", ["JHEP", "jhep"], v, "1999", p, special=True) for v in ("3", "11", "0311")
                                                        for p in ("1899", "1900", "1999", "2004", "2100", "999", "20045")],
            [VP], ["50", "vol. 50"], ["(1994)"], ["123", "p. 123"], title_seps=[" ", ", "],
            fronts=[NONE, {"t": "foo, ", "misc": "foo"}, {"t": "see bar ", "misc": "see bar"}],
            backs=[NONE, {"t": ", foo", "misc": "foo"}, {"t": ".", "misc": ""}]),
        proceedings("proceedings", [LAT], PFORMS, ["PoS", "POS", "pos"] if deep else ["PoS"], ["", " ", "-"], PSEPS),
        proceedings("conferences", CONFS, PFORMS, ["PoS", "POS", "pos"], ["", " "], [" ", ", ", ""]),
        proceedings("proceedings and their surroundings", CONFS[:3], PFORMS, ["PoS"], [""], [" ", ""],
                    FRONTS + [{"t": "(1995) ", "misc": "(1995)"}, {"t": "expos ", "misc": "expos"}],
                    BACKS + [{"t": ", 1987", "misc": "1987"}, {"t": " 45", "misc": "45"}]),
        job("values", values(deep), every, ["50"], ["(1994)", "1994"], ["123"], ["D50", "D 50", "50D"], seps=[", "], title_seps=[" "]),
    ]
    cases = []
    for r in chk.tlc_many(jobs):
        cases += r.records
    seen, todo = set(), []
    for c in cases:
        if c["line"] not in seen:
            seen.add(c["line"])
            todo.append(c)
    for c, o in zip(todo, vt.pool_map(replay, todo, chunk=200)):
        chk.validated += 1
        want = expected(c)
        if chk.validated % 997 == 1:
            chk.sample({"line": c["line"], "record": want})
        if o.get("ok") != want:
            chk.violation("journal reference differs from the specification", {
                "line": c["line"], "expected": want, "got": o.get("ok", o), "order": c["order"]})


if __name__ == "__main__":
    vt.main("C15", body)
