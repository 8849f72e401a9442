"""C10: reassembly of references (spec/Rebuild.tla)."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import vt, kb  # noqa: E402
from lib.vt import Raw, guarded, set_of  # noqa: E402


def L(ind="", pre="", num=0, body=""):
    return {"ind": ind, "pre": pre, "num": num, "body": body}


def style(op, cl, numbered=True):
    return {"open": op, "close": cl, "numbered": numbered, "none": False}


NONE = {"open": "", "close": "", "numbered": False, "none": True}
STYLES = [style("[", "]"), style("(", ")"), style("{", "}"), style("", "."), style("", ")"),
          style("[Ab", "]", False)]
PATTERNS = {}


def marker_pattern(case):
    """The pattern the implementation itself finds for this style of marker."""
    from refextract.references.regexs import get_reference_line_numeration_marker_patterns
    key = case["style"]
    if case["none"]:
        return None
    if key not in PATTERNS:
        for p in get_reference_line_numeration_marker_patterns():
            if p.match(key + " x"):
                PATTERNS[key] = p.pattern
                break
    return PATTERNS[key]


def replay(case):
    from refextract.references.text import rebuild_reference_lines
    obs = {"direct": guarded(lambda: list(rebuild_reference_lines(list(case["lines"]), marker_pattern(case))))}
    if case.get("api"):
        from refextract.references.api import extract_references_from_string
        obs["api"] = guarded(lambda: [r["raw_ref"] for r in extract_references_from_string(
            "\n".join(case["lines"]), override_kbs_files=kb.SMALL)])
        if "ok" in obs["api"]:
            seen = []
            for raw in obs["api"]["ok"]:
                seen.append(raw[0] if len(raw) == 1 else raw)
            obs["api"]["ok"] = seen
    return obs


def dedupe(seq):
    """Records of one reference follow each other: keep one raw text for each."""
    out = []
    for x in seq:
        if not out or out[-1] != x:
            out.append(x)
    return out


def body(chk):
    deep = vt.tier() == "thorough"
    cases = []
    marked = [L(num=1, body="aa"), L(num=2, body="Bb,"), L(num=3, body="cc-"), L(num=2),
              L(pre="xx", num=2, body="dd"), L(pre="yy-", num=3, body="ee"),
              L(body="Ff"), L(body="gg-"), L(ind="  ", body="hh"), L(ind="  ", num=2, body="ii"),
              L(ind=" "), L(), L(num=12, body="jj"), L(pre="see", num=1, body="kk")]
    r = chk.tlc("Rebuild", {"Lines": set_of(marked), "Styles": set_of(STYLES[:1]), "MaxLen": 5 if deep else 4,
                            "MaxRefLines": 25}, invariants=INVS, label="numbered")
    cases += r.records
    few = [marked[i] for i in (0, 1, 4, 6, 7, 9, 11)]
    r = chk.tlc("Rebuild", {"Lines": set_of(few), "Styles": set_of(STYLES[1:]), "MaxLen": 5 if deep else 4,
                            "MaxRefLines": 25}, invariants=INVS, label="styles")
    cases += r.records
    # long sequences of numbers, a small alphabet
    nums = [L(num=1, body="aa"), L(num=2, body="bb"), L(num=3, body="cc"), L(pre="dd", num=4, body="ee")]
    r = chk.tlc("Rebuild", {"Lines": set_of(nums), "Styles": set_of(STYLES[:1]), "MaxLen": 7 if deep else 6,
                            "MaxRefLines": 25}, invariants=INVS, label="sequences")
    cases += r.records
    # what lines end and begin with
    ends = [L(num=1, body="aa"), L(num=2, body="b")] + [L(body="c" + e) for e in "/:;.)]}\"'=_+*?!%&~|é–"] + \
           [L(body=e + "d") for e in "/(\"–é"]
    r = chk.tlc("Rebuild", {"Lines": set_of(ends), "Styles": set_of(STYLES[:1]), "MaxLen": 4 if deep else 3,
                            "MaxRefLines": 25}, invariants=INVS, label="ends of lines")
    cases += r.records
    r = chk.tlc("Rebuild", {"Lines": set_of([dict(x, num=0, body=x["body"].capitalize()) for x in ends] + [L(ind=" ", body="e"), L(body="f")]),
                            "Styles": set_of([NONE]), "MaxLen": 3, "MaxRefLines": 25}, invariants=INVS,
                label="ends of unnumbered lines")
    cases += r.records
    # lines and beginnings of lines with hardly any text
    short = [L(num=1, body="aa"), L(num=2, body="."), L(pre=".", num=2, body="bb"), L(pre="(a),", num=2, body="cc"),
             L(pre="7", num=2, body="dd"), L(ind=" ", pre=";", num=3, body="ee"), L(body=","), L(body="9"), L(body="é")]
    r = chk.tlc("Rebuild", {"Lines": set_of(short), "Styles": set_of(STYLES[:1]), "MaxLen": 5 if deep else 4,
                            "MaxRefLines": 25}, invariants=INVS, label="short texts")
    cases += r.records
    short = [L(body="."), L(body="A"), L(body="b"), L(ind=" ", body="7"), L(body="(c)"), L(body="é")]
    r = chk.tlc("Rebuild", {"Lines": set_of(short), "Styles": set_of([NONE]), "MaxLen": 5 if deep else 4,
                            "MaxRefLines": 25}, invariants=INVS, label="unnumbered short texts")
    cases += r.records
    plain = [L(body="Aa bb"), L(body="cc dd"), L(ind="   ", body="Ee"), L(body="Ff,"), L(body="Gg-"),
             L(body="Hh &"), L(ind=" "), L()]
    r = chk.tlc("Rebuild", {"Lines": set_of(plain), "Styles": set_of([NONE]), "MaxLen": 5 if deep else 4,
                            "MaxRefLines": 25}, invariants=INVS, label="unnumbered")
    cases += r.records
    blank = [L(body="Aa bb"), L(ind="  ", body="Cc"), L()]
    r = chk.tlc("Rebuild", {"Lines": set_of(blank), "Styles": set_of([NONE]), "MaxLen": 10 if deep else 9,
                            "MaxRefLines": 25}, invariants=INVS, label="blank-separated")
    cases += r.records
    blank = [L(body="Aa bb"), L(body="cc-"), L(ind=" ")]
    r = chk.tlc("Rebuild", {"Lines": set_of(blank), "Styles": set_of([NONE]), "MaxLen": 10 if deep else 9,
                            "MaxRefLines": 25}, invariants=INVS, label="blank-separated 2")
    cases += r.records
    # the limit on the length of a reference: simulation of long sections
    long_ = [L(num=1, body="aa"), L(num=2, body="bb"), L(body="cc"), L(body="Dd"), L(ind="  ", body="ee"), L(num=9, body="ff")]
    r = chk.tlc("Rebuild", {"Lines": set_of(long_), "Styles": Raw("{%s, NoStyle}" % vt.tla_value(STYLES[0])),
                            "MaxLen": 60, "MaxRefLines": 25}, invariants=INVS, next_="LongNext",
                simulate=300 if deep else 20, depth=130, label="long references",
                extra_files=None)
    cases += r.records

    rng = random.Random(vt.seed())
    e2e = [c for c in cases if c["e2e"]]
    budget = 60000 if deep else 12000
    picked = e2e if len(e2e) <= budget else rng.sample(e2e, budget)
    for c in picked:
        c["api"] = True
    results = vt.pool_map(replay, cases, chunk=200)
    for c, o in zip(cases, results):
        chk.validated += 1
        chk.sample({"lines": c["lines"], "references": c["refs"]})
        if o["direct"].get("ok") != c["refs"]:
            chk.violation("references reassembled differently", {
                "lines": c["lines"], "separated by": c["mode"], "expected": c["refs"], "got": o["direct"]})
        if "api" in o:
            chk.validated += 1
            if "ok" not in o["api"] or dedupe(o["api"]["ok"]) != dedupe(c["refs"]):
                chk.violation("raw texts of the extracted references differ", {
                    "lines": c["lines"], "separated by": c["mode"], "expected": c["refs"], "got": o["api"]})


INVS = ["Conservation", "InSequence", "NoEmptyReference", "TextKept", "Emit"]


if __name__ == "__main__":
    vt.main("C10", body)
