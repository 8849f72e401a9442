"""Alphabet and replay of spec/RefLine.tla."""
from lib import kb, vt
from lib.vt import guarded, set_of

INVS = ["OnePerRecord", "NoRepeatedCollaboration", "NoneLost", "AuthorsKept", "SplitWhereRepeated",
        "NoEmptyRecord", "NoJournalInvented", "Emit"]


def P(k, t, v="", title="", series="", vol="", year="", page=""):
    return dict(k=k, t=t, v=v, title=title, series=series, vol=vol, year=year, page=page)


def same(k, t):
    return P(k, t, t)


FOO = P("text", "foo")
BAR = P("text", "see bar")
YPAR = P("year", "(1999)")
YBARE = P("year", "1998")
SMITH = same("AUTH", "A. Smith")
JONES = same("AUTH", "B. Jones and C. Kim")
ATLAS = same("COLLABORATION", "ATLAS Collaboration")
QUOTED = P("QUOTED", '"A title"', "A title")
PRD = P("JOURNAL", "Phys. Rev. D 50 (1994) 123", title="Phys.Rev.", series="D", vol="50", year="1994", page="123")
JHEP = P("JOURNAL", "JHEP 01 (2001) 12", title="JHEP", vol="01", year="2001", page="12")
NP = P("JOURNAL", "Nucl. Phys. 33 (1990) 44", title="Nucl.Phys.", vol="33", year="1990", page="44")
ARX = same("ARXIV", "arXiv:1301.1234")
HEP = same("ARXIV", "hep-ph/9901123")
REP = same("REPORTNUMBER", "CERN-TH-1234")
DOI = same("DOI", "doi:10.1103/PhysRevD.50.123")
URL = same("URL", "https://example.org/a")
HDL = same("HDL", "hdl:2128/123")
ISBN = P("ISBN", "ISBN 978-3-16-148410-0", "978-3-16-148410-0")
PUB = P("PUBLISHER", "Springer Verlag", "Springer")
IBID = P("ibid", "ibid. 51 (1995) 234", vol="51", year="1995", page="234")
IBIDB = P("ibid", "ibid. B 52 (1996) 345", series="B", vol="52", year="1996", page="345")
NUM = P("num", "53 (1997) 111", vol="53", year="1997", page="111")
BOOK = P("BOOK", '"Introduction to elementary particles"', "Introduction to elementary particles", year="2008")
BOOKTEXT = P("booktext", "Introduction to elementary particles", "Introduction to elementary particles", year="2008")
Y2008 = P("year", "2008")
Y2008P = P("year", "(2008)")
ALL = [FOO, BAR, YPAR, YBARE, SMITH, JONES, ATLAS, QUOTED, PRD, JHEP, ARX, HEP, REP, DOI, URL, HDL, ISBN,
       PUB, IBID, IBIDB, NUM]


def group(rec):
    d = {}
    for k, v in rec:
        d.setdefault(k, []).append(v)
    return d


def expected(case):
    out = []
    for rec in case["records"]:
        d = group(rec)
        if case.get("number"):
            d["linemarker"] = [case["number"]]
        d["raw_ref"] = [case["line"].strip()]
        out.append(d)
    return out


def replay(case):
    from refextract.references.api import extract_references_from_string
    return guarded(lambda: extract_references_from_string(case["line"], override_kbs_files=kb.SMALL))


def constants(pieces, seps, n, leads=("",), tails=("",), marker="[1] ", special=("JHEP",)):
    return {"Pieces": set_of(pieces), "Seps": set(seps), "MaxPieces": n, "Leads": set(leads),
            "Tails": set(tails), "Marker": marker, "Special": set(special)}


def job(label, pieces, seps, n, leads=("",), tails=("",), marker="[1] ", number="1", simulate=None, special=("JHEP",),
        invs=INVS, **kw):
    if simulate:
        kw.update(next_="LongNext", simulate=simulate, depth=n + 6)
    return ("RefLine", constants(pieces, seps, n, leads, tails, marker, special),
            dict(kw, invariants=invs, label=label)), number


def run_jobs(chk, jobs, parallel=4):
    """Lines and records of several explorations of the specification."""
    cases = []
    results = chk.tlc_many([j for j, _ in jobs], parallel)
    for (_, number), r in zip(jobs, results):
        for c in r.records:
            c["number"] = number
        cases += r.records
    return cases


def run(chk, *a, **kw):
    return run_jobs(chk, [job(*a, **kw)], parallel=1)


def compare(chk, cases, what="records differ from the specification", replay=replay):
    seen, todo = set(), []
    for c in cases:
        if c["line"] not in seen:
            seen.add(c["line"])
            todo.append(c)
    results = vt.pool_map(replay, todo, chunk=200)
    bad = 0
    for c, o in zip(todo, results):
        chk.validated += 1
        want = expected(c)
        if chk.validated % 997 == 1:
            chk.sample({"line": c["line"], "records": want})
        if o.get("ok") != want:
            bad += 1
            chk.violation(what, {"line": c["line"], "expected": want, "got": o.get("ok", o)})
    return bad

# other spellings of the pieces
VARIANTS = [
    P("text", "straße ﬁnd müller", "straße find müller"), P("text", "x<y & z>w"),
    P("text", "<cds.YR>", "< cds.YR>"), P("text", "İstanbul ŉ"), P("text", "α β"), P("text", "(foo [bar])"),
    P("year", "50"), P("text", "in preparation"), P("year", "Vol. 3"), P("year", "p. 12"),
    same("AUTH", "A. Smith et al."), same("AUTH", "A. Smith, B. Jones, and C. Kim"), same("AUTH", "J.-P. Müller"),
    same("AUTH", "A. O'Brien"), same("AUTH", "Smith, A."),
    P("QUOTED", "“A title”", "A title"),
    P("QUOTED", '"Phys. Rev. D 50 (1994) 123, x"', 'Phys. Rev. D 50 (1994) 123, x'),
    P("QUOTED", '"über α"', 'über α'), P("QUOTED", '"B title,"', "B title"),
    P("JOURNAL", "Phys.Rev.D50, 123 (1994)", title="Phys.Rev.", series="D", vol="50", year="1994", page="123"),
    P("JOURNAL", "PHYS. REV., D50:123-130,1994", title="Phys.Rev.", series="D", vol="50", year="1994", page="123-130"),
    P("JOURNAL", "DAN 12 (1990) 34", title="Dokl.Akad.Nauk Ser.Fiz.", vol="12", year="1990", page="34"),
    P("JOURNAL", "Nucl. Phys. XII (1990) 34", title="Nucl.Phys.", vol="12", year="1990", page="34"),
    P("ARXIV", "[arXiv:1301.1234v2 [hep-ph]]", "arXiv:1301.1234 [hep-ph]"),
    P("ARXIV", "hep-ph/9901123v12", "hep-ph/9901123"),
    P("REPORTNUMBER", "CERN-TH 1234", "CERN-TH-1234"), P("REPORTNUMBER", "CERN/TH/1234", "CERN-TH-1234"),
    P("DOI", "https://doi.org/10.1103/PhysRevD.50.123", "doi:10.1103/PhysRevD.50.123"),
    P("DOI", "DOI: 10.1000/x(1)2", "doi:10.1000/x(1)2"),
    same("URL", "https://example.org/a?b=c&d=e"),
    P("ISBN", "ISBN-10: 3-16-148410-X", "3-16-148410-X"),
    P("COLLABORATION", "(ATLAS Collaboration)", "ATLAS Collaboration"), BOOK, BOOKTEXT]
# punctuation and blanks inside of what is recognised
SPACED = [
    P("REPORTNUMBER", "CERN - TH - 1234", "CERN-TH-1234"), P("REPORTNUMBER", "CERN, TH.  1234", "CERN-TH-1234"),
    P("JOURNAL", "Phys.  Rev.  D  50  (1994)  123", title="Phys.Rev.", series="D", vol="50", year="1994", page="123"),
    P("JOURNAL", "Phys. - Rev. D 50 (1994) 123", title="Phys.Rev.", series="D", vol="50", year="1994", page="123"),
    P("JOURNAL", "Nucl., Phys., vol. 33, pp. 44-49, 1990", title="Nucl.Phys.", vol="33", year="1990", page="44-49"),
    P("PUBLISHER", "Springer - Verlag", "Springer"), P("PUBLISHER", "SPRINGER-VERLAG", "Springer"),
    P("PUBLISHER", "Springer,  Verlag", "Springer"), P("ARXIV", "arXiv : 1301.1234", "arXiv:1301.1234"),
    P("text", "x , - y", "x, - y"), P("text", "(a) - (b)"), P("COLLABORATION", "ATLAS  Collaboration", "ATLAS Collaboration")]
# nearly something that is recognised: a journal without a numeration, parts of words
NEARLY = [
    P("text", "talk at the Nucl. Phys. workshop"), P("text", "to appear in JHEP soon"), P("text", "JINST or Nucl. Phys., in press"),
    P("text", "published by Springerland today"), P("text", "preSpringer Verlag notes"), P("text", "Springer Verlags too"), P("text", "JHEPX notes"),
    P("text", "the NATLAS Collaborations meet"), P("text", "XCERN-TH-1234 notes"), P("text", "the ibidus"),
    P("text", "Introduction to elementary particlesX here"), P("year", "repos LAT2007 (2006) 369"), P("year", "PoS LAT2007 (2006) 36999")]

# journals whose year is not given (years and numbers after them would be theirs)
NOYEAR = [
    P("JOURNAL", "Phys. Rev. D 50, 123", title="Phys.Rev.", series="D", vol="50", page="123"),
    P("JOURNAL", "Nucl. Phys. 33, 44-49", title="Nucl.Phys.", vol="33", page="44-49"),
    P("JOURNAL", "Phys. Lett. B, Vol. 7, p. 9", title="Phys.Lett.", series="B", vol="7", page="9"),
    P("JOURNAL", "Phys. Rev. 50C:123", title="Phys.Rev.", series="C", vol="50", page="123")]


def ibid(t, series="", vol="51", year="1995", page="234", k="ibid"):
    return P(k, t, series=series, vol=vol, year=year, page=page)


PLB = P("JOURNAL", "Phys. Lett. B 12 (1988) 3", title="Phys.Lett.", series="B", vol="12", year="1988", page="3")
PR = P("JOURNAL", "Phys. Rev. 7 (1980) 9", title="Phys.Rev.", series="", vol="7", year="1980", page="9")
IBIDS = [ibid("ibid 51 (1995) 234"), ibid("Ibid., 51, 234 (1995)"), ibid("ibid. D51 (1995) 234", "D"),
         ibid("IBID. B51:234,1995", "B"), ibid("ibidem 51 (1995) 234"),
         ibid("ibid. 51 (1995) 234-240", page="234-240"), ibid("ibid. B 5 (1996) 7", "B", "5", "1996", "7"),
         ibid("B52 (1996) 345", "B", "52", "1996", "345", "num"), ibid("54, 99 (1998)", "", "54", "1998", "99", "num"),
         ibid("55 (1999) 12-19", "", "55", "1999", "12-19", "num"), PRD, JHEP, NP, PLB, PR]
CORE_SEPS = [", ", "; "]
MORE_SEPS = [", ", "; ", " ", ". ", ": ", ",", ";", "  ", " - ", ", see ", " [", "] ", ".", ", in: ", " (", ") "]
