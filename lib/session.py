"""Documents handled one after the other in a process (spec/Session.tla)."""
import copy
import os
import shutil
import tempfile

from lib import kb, vt
from lib.kbhist import Boom, spoil

DOCS = {
    "numbered": "[1] A. Smith, Phys. Rev. D 50 (1994) 123\n[2] B. Jones, JHEP 01 (2002) 34; ibid 02 (2002) 35\n"
                "[3] ATLAS Collaboration, CERN-TH-1234",
    "ibid": "[1] ibid. 51 (1995) 7\n[2] ibid. D 52 (1996) 8, 53 (1997) 9",
    "numbers": "12 (1998) 34\nB 12 (1998) 34; ibid 13 (1999) 5",
    "anonymous": "Phys. Rev. 12 (1999) 34\n\nJHEP 0203 (2002) 4, http://www.x.org/y",
    "dotted": "1. C. Brown, Nucl. Phys. B 5 (1980) 6.\n2. D. Green, arXiv:1207.1234\nv2 [hep-ph]\n3. Idem, hep-th/9901123",
    "markers": "(1) J. Foo, J. Unknown 4 (1990) 5\n(2) J. Bar, Mitt. Unknown 5 (1991) 6, doi:10.1000/7",
    "paper": "Title of a paper\n\nIntroduction\nText about CERN-TH-1234.\n\nReferences\n[1] A. Smith, Phys. Rev. D 50 (1994) 123\n"
             "[2] B. Jones, JHEP 01 (2002) 34\n[3] D. Griffiths, \"Introduction to elementary particles\", 2008\n\nFigure captions\nFigure 1.",
    "no section": "Title of a paper\n\nIntroduction\nText only.",
    "repeated": "[1] A. Smith, Phys. Rev. D 50 (1994) 123, doi:10.1000/1; Phys. Rev. D 51 (1995) 124, doi:10.1000/1\n[2] DAN 3 (1999) 4",
    "empty": "",
}
ENTRIES = ("string", "fulltext", "file", "stats")


def process(doc, entry, stop, folder):
    from refextract.references import api, engine
    text = DOCS[doc]
    seen = []

    def linker(el):
        seen.append(el["type"])
        if stop == "fails" and len(seen) == 2:
            raise Boom()
    kw = {"override_kbs_files": kb.SMALL, "linker_callback": linker}
    if entry == "string":
        res = vt.guarded(lambda: api.extract_references_from_string(text, **kw))
    elif entry == "fulltext":
        res = vt.guarded(lambda: api.extract_references_from_string(text, is_only_references=False, **kw))
    elif entry == "stats":
        res = vt.guarded(lambda: engine.parse_references(text.split("\n"), **kw))
        if "ok" in res:
            refs, stats = res["ok"]
            res = {"ok": list(refs), "stats": {k: v for k, v in stats.items() if k != "date"}}
    else:
        path = os.path.join(folder, doc.replace(" ", "_") + ".txt")
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(text)
        res = vt.guarded(lambda: api.extract_references_from_file(path, **kw))
        os.remove(path)
    out = copy.deepcopy(res)
    if "ok" in res:
        spoil(res["ok"])
    elif isinstance(out, dict):
        out = {"exc": out["exc"]}
    return {"res": out, "linked": seen}


def run(case):
    folder = tempfile.mkdtemp(prefix="vt_session_")
    try:
        return [process(op["doc"], op["entry"], op["stop"], folder) for op in case["log"]]
    finally:
        shutil.rmtree(folder, ignore_errors=True)
