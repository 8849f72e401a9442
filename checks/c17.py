"""C17: the answer to any text (spec/RecordShape.tla writes texts and judges the recorded answers)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import kb, vt  # noqa: E402

BLANKS = [" ", "\t", "\x0c", "\r", "\x0b", "\x1f", "\x85", "\xa0", "\u2003", "\u2028"]
WORDS = ["A.", "Smith", "Smith,", "and", "et al.", "foo", "bar", "the", "see", "ed.", "eds.", "(ed. A. Smith)", "Van der", "J.-P.", "de la", "A",
         "A.B.", "I", "V", "Jr.,", "I.I.", "A.-", "Smith, A.,", "M. M.", "A. Smith", "A. Smith and B. Jones", "ibid.", "Erratum", "thesis",
         "(private communication)", "and references therein", "in preparation", "vol.", "p.", "no.", "pp."]
PUNCT = [".", ",", ";", ":", "-", "(", ")", "[", "]", "{", "}", "\"", "“", "”", "'", "`", "/", "\\", "^", "~", "#", "%", "$", "&", "=", "+", "*", "?",
         "|", "_", "__", "@", "!", "--", "—", "…", "<", ">"]
PIECES = ["Phys. Rev. D", "Phys. Rev. D 50 (1994) 123", "Phys. Lett. B 12 (1988) 3", "JHEP 01 (2001) 12", "50 (1994) 123", "DAN 12 (1990) 34",
          "hep-ph/9901123", "arXiv:1301.1234", "arXiv:1301.1234v2 [hep-ph]", "CERN-TH-1234", "CERN-TH-", "http://a.b/", "https://example.org/a",
          "http://", "www.example.org", "doi:10.1103/PhysRevD.50.123", "doi:10.1/", "10.1000/x", "hdl:2128/123", "hdl:", "ISBN", "978-",
          "ISBN 978-3-16-148410-0", "ATLAS Collaboration", "Collaboration", "Springer Verlag", "Springer", "\"A title\"", "“A title”",
          "Introduction to elementary particles", "Griffiths, David, Introduction to elementary particles", "(1999)", "1999", "1", "12", "B50", "(2008)",
          "Du, X."]
MARKUP = ["<cds.JOURNAL>", "</cds.JOURNAL>", "<cds.TITLE />", "<cds.VOL>", "</cds.VOL>", "<cds.YR>", "<cds.PG>", "<cds.REPORTNUMBER>",
          "</cds.REPORTNUMBER>", "<cds.ARXIV>", "<cds.AUTHstnd>", "</cds.AUTHstnd>", "<cds.AUTHetal>", "</cds.AUTHincl>", "<cds.URL />", "<cds.DOI />",
          "<cds.HDL />", "<cds.QUOTED>", "</cds.QUOTED>", "<cds.ISBN>", "</cds.ISBN>", "<cds.PUBLISHER>", "</cds.PUBLISHER>", "<cds.COLLABORATION>",
          "</cds.COLLABORATION>", "<cds.SER>", "<cds.IBID>", "<cds.JOURNALibid>", "<cds.", "cds.", "<a href=\"http://x.y\">t</a>", "<a href=\"",
          "</a>", "</", "/>", "<>", "&lt;cds.VOL&gt;"]
GONE = ["\ufeff", "\u200b", "\x00", "\x01", "\x7f", "\ud800", "\u00ad"]     # may be washed away
ODD = ["é", "ß", "ﬁ", "İ", "\U0001d6fc", "漢", "א", "e\u0301", "´e", "¨u", "\u2212"]
MARKS = [("[7]", " ", "7"), ("(7)", " ", "7"), ("7.", " ", "7"), ("[7]", "", "7"), ("{7}", " ", "7"), ("[12]", " ", "12"), ("123.", " ", "123"),
         ("7)", " ", "7")]
NONE = {"t": "", "sp": "", "n": "", "i": 0}


def token(t):
    return {"t": t, "blank": not t.strip(), "num": t[0] in "[({*" or t[0].isdigit() or t in GONE}


def tokens(ts):
    return vt.set_of([token(t) for t in ts])


def marks(one):
    out = [{"t": t, "sp": sp, "n": n, "i": 1} for t, sp, n in MARKS]
    return vt.set_of(out if one else [NONE] + out)


def style(a, b):
    return vt.set_of([{"t": "%s%d%s" % (a, i, b), "sp": " ", "n": str(i), "i": i} for i in (1, 2, 3)])


GLUE = vt.Raw("{<<>>, <<" + vt.tla_value(token(" ")) + ">>}")
TIGHT = vt.Raw("{<<>>}")


def job(label, toks, size, lines=1, markers=None, opts=("small",), glue=GLUE, repeats=(1,), simulate=None):
    c = {"Tokens": tokens(toks), "Glues": glue, "Markers": markers or vt.set_of([NONE]), "MaxLen": size, "MaxLines": lines,
         "Options": set(opts), "Repeats": set(repeats), "Observed": ""}
    kw = dict(invariants=["RawIsVisible", "NumberOfMarker", "Emit"], label=label)
    if simulate:
        kw.update(simulate=simulate, depth=size * lines + lines + 2, next_="Long")
    return ("RecordShape", c, kw)


KBS = {"small": dict(override_kbs_files=kb.SMALL), "default": {}, "document": dict(override_kbs_files=kb.SMALL, is_only_references=False),
       "format": dict(override_kbs_files=kb.SMALL, reference_format="{title},{volume},{page}"),
       "empty": dict(override_kbs_files={"journals": {}, "journals_re": [], "report-numbers": [], "collaborations": {}, "books": [],
                                         "publishers": {}, "special_journals": [], "authors": []}),
       "linked": dict(override_kbs_files=kb.SMALL, linker_callback=lambda e: 42)}


def kind(v):
    if not isinstance(v, str):
        return "other"
    if not v.strip():
        return "blank"
    return "markup" if "<cds." in v or "</cds." in v else "text"


def observe(case):
    from refextract.references.api import extract_references_from_string
    source = "\n".join(x["text"] for x in case["lines"])
    got = vt.guarded(lambda: extract_references_from_string(source, **KBS[case["opt"]]))
    out = {"lines": [{"raw": x["raw"], "number": x["number"]} for x in case["lines"]], "whole": case["opt"] != "document",
           "answer": "list", "records": []}
    if "exc" in got or not isinstance(got["ok"], list) or not all(isinstance(r, dict) for r in got["ok"]):
        out["answer"] = "exception" if "exc" in got else "other"
        return out, got
    for r in got["ok"]:
        listed = {k: v if isinstance(v, list) else [v, None] for k, v in r.items()}
        out["records"].append({
            "raws": [str(v) for v in listed.get("raw_ref", [])],
            "number": "|".join(str(v) for v in listed["linemarker"]) if "linemarker" in r else "none",
            "fields": [{"name": str(k), "kinds": [kind(x) for x in v]} for k, v in sorted(listed.items())]})
    return out, got


def encoded(text):
    return vt._NON_ASCII.sub(lambda m: "@%06x@" % ord(m.group()), text)


def dump(obs):
    """The log that TLC reads: characters it cannot read as @code@."""
    def walk(v):
        if isinstance(v, str):
            return encoded(v)
        if isinstance(v, list):
            return [walk(x) for x in v]
        return {k: walk(x) for k, x in v.items()} if isinstance(v, dict) else v
    return json.dumps([walk(o) for o in obs])


def jobs(deep):
    every = WORDS + PUNCT + PIECES + MARKUP + ODD + GONE + BLANKS
    core = ["A.", "Smith,", "and", "et al.", "foo", "ed.", ".", ",", ";", "(", "[", "\"", "Phys. Rev. D", "Phys. Rev. D 50 (1994) 123", "hep-ph/9901123",
            "https://example.org/a", "doi:10.1000/x", "ISBN 978-3-16-148410-0", "ATLAS Collaboration", "Springer Verlag", "(1999)", "<cds.JOURNAL>",
            "</cds.JOURNAL>", "\t", "ibid."]
    n = 12 if deep else 1
    return [job("pairs of tokens", every if deep else [t for t in every if t not in WORDS[20:] + PUNCT[20:]], 2, markers=vt.set_of([NONE]), glue=TIGHT if not deep else GLUE),
            job("markers", every, 1, markers=marks(False), opts=("small", "format", "linked")),
            job("triples", core if deep else core[:16], 3, glue=vt.Raw("{<<" + vt.tla_value(token(" ")) + ">>}")),
            job("other options", every, 1, opts=("empty", "document", "default")),
            job("one line", every, 6, markers=marks(False), opts=("small", "format", "linked", "empty"), simulate=4000 * n),
            job("one long line", every, 20, markers=marks(False), simulate=500 * n),
            job("default knowledge bases", every, 7, markers=marks(False), opts=("default",), simulate=600 * n),
            job("several lines [1]", every, 5, 3, style("[", "]"), ("small", "document"), simulate=500 * n),
            job("several lines 1.", every, 5, 3, style("", "."), simulate=300 * n),
            job("several lines (1)", every, 5, 3, style("(", ")"), simulate=200 * n),
            job("repeated tokens", every, 1, glue=GLUE, repeats=(40, 150)),
            job("repeated pairs", every, 2, markers=marks(False), repeats=(60,), simulate=300 * n)]


def body(chk):
    deep = vt.tier() == "thorough"
    cases = [c for r in chk.tlc_many(jobs(deep)) for c in r.records]
    # the default knowledge bases take a second to load: their cases one after the other
    cases.sort(key=lambda c: c["opt"])
    seen = vt.pool_map(observe, cases, chunk=40)
    obs = [o for o, _ in seen]
    size = 4000
    parts = [(i, obs[i:i + size]) for i in range(0, len(obs), size)]
    constants = {"Tokens": vt.Raw("{}"), "Glues": TIGHT, "Markers": vt.Raw("{}"), "MaxLen": 1, "MaxLines": 1, "Options": {"small"}, "Repeats": {1},
                 "Observed": "log.json"}
    ran = chk.tlc_many([("RecordShape", constants, dict(init="TInit", next_="TNext", extra_files={"log.json": dump(part)}, workers=1,
                                                        label="recorded answers")) for _, part in parts])
    for (start, part), r in zip(parts, ran):
        for n in r.records:
            case, (o, got) = cases[start + n - 1], seen[start + n - 1]
            chk.violation("an answer is not well formed", {"text": "\n".join(x["text"] for x in case["lines"])[:2000], "lines": case["lines"][:3],
                                                            "options": case["opt"], "got": str(got)[:3000]})
        chk.validated += len(part)
    for c in cases[::max(1, len(cases) // 3)]:
        chk.sample(c)


if __name__ == "__main__":
    vt.main("C17", body)
