"""C16: identifiers (spec/Identifiers.tla gives the pieces, spec/RefLine.tla the lines)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import kb, refline as R, vt  # noqa: E402

PLAIN = ["acc-ph", "astro-ph", "astro-ph.co", "atom-ph", "chao-dyn", "chem-ph", "cond-mat", "cs", "cs.ai", "gr-qc", "hep-ex",
         "hep-lat", "hep-ph", "hep-th", "math", "math.ag", "math.AG", "math-ph", "nlin", "nlin.si", "nucl-ex", "nucl-th", "physics",
         "physics.acc-ph", "physics.ao-ph", "physics.atm-clus", "physics.atom-ph", "physics.bio-ph", "physics.chem-ph",
         "physics.class-ph", "physics.comp-ph", "physics.data-an", "physics.ed-ph", "physics.flu-dyn", "physics.gen-ph",
         "physics.geo-ph", "physics.hist-ph", "physics.ins-det", "physics.med-ph", "physics.optics", "physics.plasm-ph",
         "physics.pop-ph", "physics.soc-ph", "physics.space-ph", "q-bio.ab", "q-fin.ab", "q-alg", "quant-ph", "solv-int",
         "stat.ml", "stat-mech", "dg-ga", "funct-an", "alg-geom"]
ALIAS = {"astro-phy": "astro-ph", "hepph": "hep-ph", "hepth": "hep-th", "plasm-ph": "physics.plasm-ph", "quant-phys": "quant-ph",
         "hap-ph": "hep-ph", "quantph": "quant-ph", "stro-ph": "astro-ph", "hepex": "hep-ex", "math-ag": "math.ag",
         "math-dg": "math.dg", "nuc-th": "nucl-th", "math-ca": "math.ca", "nlin-si": "nlin.si", "quantum-ph": "quant-ph",
         "ep-ph": "hep-ph", "ep-th": "hep-th", "ep-ex": "hep-ex", "hept-h": "hep-th", "hepp-h": "hep-ph",
         "asstro-ph": "astro-ph", "hep-lt": "hep-lat", "he-ph": "hep-ph", "ucl-th": "nucl-th", "nnucl-th": "nucl-th",
         "atro-ph": "astro-ph", "astr-ph": "astro-ph", "math-qa": "math.qa", "quan-ph": "quant-ph", "hhep-ph": "hep-ph",
         "hhep-ex": "hep-ex", "nuclth": "nucl-th", "hept-th": "hep-th"}
ARCHIVES = [{"a": a, "c": a} for a in PLAIN] + [{"a": a, "c": c} for a, c in ALIAS.items()]
FEW = [x for x in ARCHIVES if x["a"] in ("hep-ph", "math.AG", "cs", "astro-ph", "hepth", "q-alg")]
DOIS = [{"t": t, "c": t} for t in (
    "10.1103/PhysRevD.50.123", "10.1000/x(1)2", "10.1016/S0370-2693(98)00123-4", "10.1007/JHEP01(2001)012", "10.1088/1126-6708/2001/01/012",
    "10.1002/(SICI)1097-0010(199811)78:3", "10.1234.5/abc", "10.123/a_b", "10.1234567/z9", "10.1000/a;b", "10.1000/ABC")]
DOIS.append({"t": "10.1103%2FPhysRevD.50.123", "c": "10.1103/PhysRevD.50.123"})
DOIS.append({"t": "10.1103%2fPhysRevD", "c": "10.1103/PhysRevD"})
SERIES = [{"words": ["CERN", "TH"], "c": "CERN-TH", "nums": {1, 2}}, {"words": ["FERMILAB", "PUB"], "c": "FERMILAB-Pub", "nums": {2}},
          {"words": ["DESY"], "c": "DESY", "nums": {2}}, {"words": ["SLAC", "PUB"], "c": "SLAC-PUB", "nums": {1}}]
URLS = ["https://example.org", "https://example.org/", "https://www.example.org/a/b.html", "https://example.org/~user/x",
        "ftp://ftp.example.org/a-b_c", "https://example.org:8080/a", "https://example.org/a?b=c&d=e", "HTTPS://example.org/A",
        "https://example.org/a%20b", "http://www.example.org/a/b.html"]
ATLAS = [{"t": p + "-CONF-" + n, "c": ("ATLAS" if n >= "2010" and n[0] == "2" else "ATL") + "-CONF-" + n}
         for p in ("ATLAS", "ATL") for n in ("2012-033", "2010-001", "2008-033", "2000-999", "2009-123", "2021-020", "99-001")]


def constants(**kw):
    c = {"Archives": vt.set_of(FEW), "OldNumbers": {"9901123"}, "OldSeps": {"/"}, "OldVersions": {""},
         "NewPrefixes": {"arXiv:"}, "YearMonths": {"1301"}, "NewDots": {"."}, "NewNumbers": {"1234"}, "NewVersions": {""},
         "Classes": {""}, "DoiPrefixes": {"doi:"}, "Dois": vt.set_of(DOIS), "HdlPrefixes": {"hdl:"}, "Hdls": {"2128/123"},
         "IsbnPrefixes": {"ISBN "}, "Isbns": {"978-3-16-148410-0"}, "Series": vt.set_of(SERIES), "SeriesSeps": {"-"},
         "ReportNumbers": vt.set_of([["1234"]]), "Atlas": vt.set_of(ATLAS),
         "Urls": vt.set_of([{"t": u, "c": u} for u in URLS]), "Kinds": {"old"}, "Years5": {"1301", "1412", "1501", "2012"}}
    c.update(kw)
    return c


def gen(kind, **kw):
    return ("Identifiers", constants(Kinds={kind}, **kw), dict(invariants=["NoVersion", "Shape", "Emit"], label=kind))


KB = dict(kb.SMALL)
KB["report-numbers"] = ["*****CERN*****", "<s 9999>", "<s 99 999>", "CERN TH---CERN-TH", "*****FNAL*****", "<s yy 999>", "FERMILAB PUB---FERMILAB-Pub",
                        "*****DESY*****", "<s yy 999>", "<s yyyy 999>", "DESY---DESY", "*****SLAC*****", "<s 9999>", "SLAC PUB---SLAC-PUB"]


def replay(case):
    from refextract.references.api import extract_references_from_string
    return vt.guarded(lambda: extract_references_from_string(case["line"], override_kbs_files=KB))


GENS = [
    gen("old", Archives=vt.set_of(ARCHIVES)),
    gen("old", OldNumbers={"9901123", "9112001", "0012999", "0703123"}, OldSeps={"/", " ", ":", "-", "|", ""}, OldVersions={"", "v1", "v12", "v123", "V2"}),
    gen("new", NewPrefixes={"arXiv:", "arXiv: ", "arxiv:", "ARXIV ", "arXiv-", "Arxiv ", "arXiv", ""}, YearMonths={"0704", "1301", "1412", "2012"},
        NewDots={".", "-", " ", ""}, NewNumbers={"1234", "12345", "0001", "99999"}, NewVersions={"", "v1", "v12"}),
    gen("new", NewVersions={"", "v2", " v2", "-v3", "V4"}, Classes={"", " [hep-ph]", "[hep-ph]", " [physics.ins-det]"}, NewNumbers={"1234", "12345"}),
    gen("catchup", OldNumbers={"9901123", "9112001", "0703999"}),
    gen("doi", DoiPrefixes={"", "doi:", "doi: ", "DOI:", "DOI ", "doi ", "(doi) ", "(doi):", "http://dx.doi.org/", "https://doi.org/",
                            "https://dx.doi.org/", "http://doi.org/"}),
    gen("hdl", HdlPrefixes={"hdl:", "HDL:", "https://hdl.handle.net/", "http://hdl.handle.net/"}, Hdls={"2128/123", "10013/epic.12345", "1234.5/abc-d"}),
    gen("isbn", IsbnPrefixes={"ISBN ", "ISBN: ", "ISBN:", "ISBN-10 ", "ISBN-13: ", "ISBN 13 ", "International Standard Book Number "},
        Isbns={"978-3-16-148410-0", "9783161484100", "3-16-148410-X", "316148410X"}),
    gen("report", SeriesSeps={"-", " ", "/"}, ReportNumbers=vt.set_of([["1234"], ["98", "123"], ["00", "001"]])),
    gen("atlas"), gen("url"),
]

ANCHORS = [R.P("URL", '<a href="%s">%s</a>' % (u, d), u, title=d)
           for u in ("https://example.org/a", "http://example.org/") for d in ("the page", "https://example.org/b")]
ABS = [R.P("REPORTNUMBER", "http://arxiv.org/abs/" + n, "arXiv:" + n) for n in ("1301.1234", "1301.12345", "hep-ph/9901123", "1301.1234v2")]


def body(chk):
    deep = vt.tier() == "thorough"
    pieces, kinds = [], {}
    seen = set()
    for r in chk.tlc_many(GENS):
        for p in r.records:
            if p["t"] not in seen:
                seen.add(p["t"])
                pieces.append(R.P(p["k"], p["t"], p["v"]))
    pieces.sort(key=lambda p: (p["k"], p["t"]))
    chk.extra["identifier_forms"] = len(pieces)
    # the repair of broken links joins what follows a link with http:// or ftp://
    joined = [p for p in pieces if "http://" in p["t"] or "ftp://" in p["t"]]
    pieces = [p for p in pieces if p not in joined]
    links = joined + ANCHORS + ABS
    groups = [pieces[i::4] for i in range(4)]
    leads = ["", "foo ", "foo, ", "[", "(", "see: ", "eprint "]
    tails = ["", ".", ", foo", " foo", ";", " (foo)"]
    jobs = [R.job("one identifier (%d)" % i, g, [", "], 1, leads=leads, tails=tails) for i, g in enumerate(groups)]
    jobs.append(R.job("links", links, [", "], 1, leads=leads, tails=["", ".", ", foo bar", ";", " (foo)"]))
    jobs.append(R.job("anchors", ANCHORS, [", ", "; ", " "], 2, leads=["", "foo "], tails=["", ".", ", foo", " foo"]))
    sample = pieces[::max(1, len(pieces) // (150 if deep else 40))]
    jobs.append(R.job("two identifiers", sample, [", ", "; ", " "], 2, tails=["", "."]))
    jobs.append(R.job("long lines", pieces, R.CORE_SEPS, 6, simulate=8000 if deep else 500))
    cases = R.run_jobs(chk, jobs)
    R.compare(chk, cases, replay=replay)


if __name__ == "__main__":
    vt.main("C16", body)
