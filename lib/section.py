"""Documents for spec/Section.tla: lines, and the replay of whole documents."""
import os
import tempfile

from lib import kb, vt
from lib.vt import guarded

BASE = {"k": "text", "word": "", "ord": 0, "style": "", "num": 0, "pre": "", "body": "", "endlike": False, "plain": True}


def line(k, **kw):
    return dict(BASE, k=k, **kw)


def text(t):
    return line("text", body=t)


def title(pre, word, ord_, style="", num=0, body="", plain=True):
    return line("title", plain=plain, pre=pre, word=word, ord=ord_, style=style, num=num, body=body)


def mark(style, num, body="Alpha beta", endlike=False):
    return line("mark", style=style, num=num, body=body, endlike=endlike)


def end(t):
    return line("end", body=t)


def digits(t="0.123 4.567 8.910 1.234"):
    return line("digits", body=t)


BLANK = line("blank")

DEFAULTS = {"TitleKinds": 6, "Near": 5, "Second": 10, "LastLines": 5, "LookAhead": 200, "TableRows": 4, "MaxRefLines": 25}
INVS = ["StatedStart", "StatedNumberStart", "NothingMissed", "StatedEnd", "NoNumberLeft", "Emit"]


def job(blocks, n, label, prefix=(), suffix=(), **kw):
    c = dict(DEFAULTS, Blocks=vt.set_of([list(b) for b in blocks]), MaxBlocks=n,
             Prefix=vt.Raw(vt.tla_value(list(prefix))), Suffix=vt.Raw(vt.tla_value(list(suffix))))
    return ("Section", c, dict(kw, invariants=INVS, label=label))


def dedupe(seq):
    out = []
    for x in seq:
        if not out or out[-1] != x:
            out.append(x)
    return out


def raws(records):
    return dedupe([r["raw_ref"][0] if len(r["raw_ref"]) == 1 else r["raw_ref"] for r in records])


def replay(case):
    from refextract.references.api import extract_references_from_file, extract_references_from_string
    if case.get("via") == "file":
        fd, path = tempfile.mkstemp(prefix="sec_", suffix=".txt", dir=os.environ["SEC_DIR"])
        try:
            with os.fdopen(fd, "w", encoding="utf-8") as f:
                f.write("\n".join(case["lines"]) + "\n")
            return guarded(lambda: raws(extract_references_from_file(path, override_kbs_files=kb.SMALL)))
        finally:
            os.remove(path)
    return guarded(lambda: raws(extract_references_from_string("\n".join(case["lines"]), is_only_references=False,
                                                               override_kbs_files=kb.SMALL)))


def run(chk, jobs, rng, cap, what):
    import shutil
    base = tempfile.mkdtemp(prefix="section_")
    os.environ["SEC_DIR"] = base
    try:
        cases = []
        for r in chk.tlc_many(jobs):
            cases += r.records
        if len(cases) > cap:
            cases = rng.sample(cases, cap)
        for n, c in enumerate(cases):
            if n % 10 == 0 and any(t.strip() for t in c["lines"]):
                c["via"] = "file"
        results = vt.pool_map(replay, cases, chunk=100)
        for c, o in zip(cases, results):
            chk.validated += 1
            if c["start"] and len(c["refs"]) > 1 and len(c["lines"]) < 12:
                chk.sample({"lines": c["lines"], "references": c["refs"]})
            if o.get("ok") != dedupe(c["refs"]):
                chk.violation(what, {"lines": [t if n < 60 else "..." for n, t in enumerate(c["lines"])][:61],
                                     "number of lines": len(c["lines"]), "via": c.get("via", "string"),
                                     "section": [c["start"], c["end"]], "numbering": c["style"],
                                     "expected": c["refs"], "got": o})
    finally:
        shutil.rmtree(base)
