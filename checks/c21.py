"""C21: a list of lines (spec/ListOfLines.tla)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import kb, refline as R, vt  # noqa: E402

POOL = [
    "[1] A. Smith, Phys. Rev. D 50 (1994) 123",
    "[2] ibid. 51 (1995) 234",
    "[3] ibid. B 52 (1996) 345; Phys. Lett. B 12 (1988) 3",
    "[4] 53 (1997) 111; 54 (1998) 112",
    "[5] B. Jones and C. Kim, \"A title\", JHEP 01 (2001) 12, arXiv:1301.1234",
    "[6] foo (1999); bar, 2001",
    "[7] CERN-TH-1234, hep-ph/9901123, doi:10.1103/PhysRevD.50.123",
    "[8] https://example.org/a, hdl:2128/123, Springer Verlag",
    "[9] ATLAS Collaboration, see Nucl. Phys. 33 (1990) 44; ibid. 34 (1991) 45",
    "[10] Introduction to elementary particles, 2008",
    "no number, Phys. Rev. D 7 (1970) 1",
    "[11] “open quote",
    "[12] <a href=\"https://example.org/x\">text</a> and ISBN 978-3-16-148410-0",
    "[13] see Ref. [12] above",
    "(14) et al., unpublished",
    "",
    "[1] A. Smith, Phys. Rev. D 50 (1994) 123; erratum ibid. 60 (1999) 1",
    "[15] DAN 12 (1990) 34, Du, X.",
    "[16] JHEP 0904 (2009) 57 [arXiv:0901.1234 [hep-th]]",
    "[17] Smith, A., Phys. Rev. 7 (1980) 9, C. Kim et al., Phys. Rev. 8 (1981) 10",
]
FIELDS = ["reportnum", "title", "author", "url", "doi", "misc"]


def parse(lines):
    from refextract.references.engine import parse_references

    def go():
        recs, stats = parse_references(list(lines), override_kbs_files=kb.SMALL)
        return recs, {k: v for k, v in stats.items() if k != "date"}
    return vt.guarded(go)


def linked(lines):
    """With a callback: it sees the lines one by one as well."""
    from refextract.references.engine import parse_references
    return vt.guarded(lambda: parse_references(list(lines), override_kbs_files=kb.SMALL,
                                               linker_callback=lambda el: el.get("doi_string") or el.get("page"))[0])


def single(line):
    return {"plain": parse([line]), "linked": linked([line])}


def many(case):
    lines = [POOL[i] for i in case["lines"]]
    return {"plain": parse(lines), "linked": linked(lines)}


def old_stats(st):
    return "0-%(reportnum)s-%(title)s-%(author)s-%(url)s-%(doi)s-%(misc)s" % st


def body(chk):
    deep = vt.tier() == "thorough"
    alone = vt.fresh_map(single, POOL)
    for line, o in zip(POOL, alone):
        if "ok" not in o["plain"] or "ok" not in o["linked"]:
            chk.violation("a line cannot be parsed", {"line": line, "got": o})
            return
    records, counts, ids, table, linked_table = {}, {}, {}, [], []
    for i, o in enumerate(alone):
        records[i] = []
        if len(o["plain"]["ok"][0]) != len(o["linked"]["ok"]):
            chk.violation("a callback changes the records", {"line": POOL[i], "got": o})
            return
        for rec, lrec in zip(o["plain"]["ok"][0], o["linked"]["ok"]):
            table.append(rec)
            linked_table.append(lrec)
            records[i].append(len(table) - 1)
        counts[i] = {f: o["plain"]["ok"][1][f] for f in FIELDS}

    def fun(d):
        return vt.Raw("(" + " @@ ".join("%d :> %s" % (k, vt.tla_value(v)) for k, v in d.items()) + ")")

    def job(label, lines, n, simulate=None):
        kw = dict(invariants=["StatsAreSums", "AllReported", "EmitLong" if simulate else "Emit"], label=label)
        if simulate:
            kw.update(simulate=simulate, depth=n + 1)
        return ("ListOfLines", {"Lines": set(lines), "Records": fun(records), "Counts": fun(counts), "MaxLines": n}, kw)

    everything = range(len(POOL))
    jobs = [job("pairs and triples", everything, 3), job("orders of a few", [0, 1, 2, 3, 8, 10], 5 if deep else 4),
            job("long lists", everything, 25, simulate=3000 if deep else 200)]
    cases, seen = [], set()
    for r in chk.tlc_many(jobs, parallel=3):
        for c in r.records:
            k = json.dumps(c["lines"])
            if k not in seen:
                seen.add(k)
                cases.append(c)
    for c, o in zip(cases, vt.pool_map(many, cases, chunk=100)):
        chk.validated += 1
        want = [table[i] for i in c["out"]]
        stats = dict(c["stats"], status=0)
        stats["old_stats_str"] = old_stats(stats)
        lines = [POOL[i] for i in c["lines"]]
        if chk.validated % 997 == 2:
            chk.sample({"lines": lines, "stats": c["stats"], "records": len(want)})
        p = o["plain"]
        if "ok" not in p or p["ok"][0] != want:
            chk.violation("the records of a list are not those of its lines", {"lines": lines, "expected": want, "got": p.get("ok", [p])[0]})
        elif p["ok"][1] != stats:
            chk.violation("the statistics of a list are not the sums of those of its lines", {
                "lines": lines, "expected": stats, "got": p["ok"][1]})
        if o["linked"].get("ok") != [linked_table[i] for i in c["out"]]:
            chk.violation("the linked records of a list are not those of its lines", {
                "lines": lines, "expected": [linked_table[i] for i in c["out"]], "got": o["linked"]})


if __name__ == "__main__":
    vt.main("C21", body)
