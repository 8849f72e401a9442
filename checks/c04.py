"""C04: cleaning of PDF files (spec/PdfClean.tla)."""
import os
import random
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import vt  # noqa: E402
from lib.vt import guarded  # noqa: E402

INVS = ["Idempotent", "OnlyAround", "ReadKeeps", "Emit"]
# what a filler character of the specification stands for in the file
FILLERS = {
    "plain": {"x": b"x", "y": b"\n"},
    "binary": {"x": b"\x00\xff\r\n", "y": b"\x1a%\x80"},
    "page": {"x": b"x" * 4096, "y": b"\x00" * 4095},
    "large": {"x": bytes(range(48, 58)) * 7001, "y": b"%" * 5 + b"\n" * 4099},
}
SCRATCH = []


def scratch():
    if not SCRATCH:
        SCRATCH.append(tempfile.mkdtemp(prefix="c04_", dir=os.environ["C04_DIR"]))
    return SCRATCH[0]


def render(text, fill):
    out = bytearray()
    for ch in text:
        out += fill.get(ch) or ch.encode("ascii")
    return bytes(out)


def replay(case):
    from refextract.references.engine import get_plaintext_document_body
    from refextract.references.api import extract_references_from_file
    fill = FILLERS[case["fill"]]
    path = os.path.join(scratch(), case["name"])
    bad = []
    if os.path.exists(path):
        os.remove(path)
    for n, op in enumerate(case["ops"]):
        if op["op"] == "write":
            with open(path, "ab") as f:
                f.write(render(op["bytes"], fill))
        else:
            if case["via"] == "api":
                guarded(lambda: len(extract_references_from_file(path)))
            elif case["via"] == "layout":
                guarded(lambda: len(get_plaintext_document_body(path, keep_layout=True)))
            else:
                guarded(lambda: len(get_plaintext_document_body(path)))
            want = render(op["after"], fill)
            got = open(path, "rb").read()
            if got != want:
                bad.append((n, len(got), got[:40].hex(), len(want), want[:40].hex()))
    if os.path.exists(path):
        os.remove(path)
    return bad


def body(chk):
    deep = vt.tier() == "thorough"
    base = tempfile.mkdtemp(prefix="c04_")
    os.environ["C04_DIR"] = base
    try:
        jobs = [
            dict(module="PdfClean", constants={"Pieces": {"%PDF-", "%%EOF", "%", "%EOF", "PDF-", "x", "y"},
                                               "MaxPieces": 5 if deep else 4, "MaxReads": 2},
                 next_="PlainNext", label="files"),
            dict(module="PdfClean", constants={"Pieces": {"%PDF-", "%%EOF", "x"},
                                               "MaxPieces": 8 if deep else 6, "MaxReads": 2},
                 next_="PlainNext", label="markers"),
            dict(module="PdfClean", constants={"Pieces": {"%PDF-", "%%EOF", "x", "%%EOFy", "x%PDF-x"},
                                               "MaxPieces": 4 if deep else 3, "MaxReads": 4 if deep else 3},
                 next_="AlternateNext", label="histories"),
        ]
        cases = []
        for r in chk.tlc_many([(j.pop("module"), j.pop("constants"), dict(j, invariants=INVS)) for j in jobs]):
            cases += r.records
        rng = random.Random(vt.seed())
        todo = []
        cap = 40000 if deep else 6000
        picked = cases if len(cases) <= cap else rng.sample(cases, cap)
        for n, c in enumerate(picked):
            fill = rng.choice(["plain", "plain", "binary", "page"])
            todo.append(dict(c, fill=fill, via=rng.choice(["raw", "raw", "layout"]), name="d%d" % (n % 97)))
        for n, c in enumerate(rng.sample(cases, min(len(cases), 4000 if deep else 600))):
            todo.append(dict(c, fill=rng.choice(list(FILLERS)), via="api", name="doc %d.pdf" % (n % 31)))
            todo.append(dict(c, fill="large", via="raw", name="doc %d.txt" % (n % 31)))
        chk.extra["files"] = len(todo)
        results = vt.pool_map(replay, todo, chunk=50)
        for c, bad in zip(todo, results):
            chk.validated += sum(o["op"] == "read" for o in c["ops"])
            chk.sample({"writes": [o["bytes"] for o in c["ops"] if o["op"] == "write"], "kept": c["ops"][-1]["after"]})
            for n, gl, g, wl, w in bad[:1]:
                chk.violation("reading a file left other bytes than the document in it", {
                    "history": [(o["op"], o["bytes"]) for o in c["ops"]], "filler": c["fill"], "via": c["via"], "step": n,
                    "expected": {"length": wl, "starts": w, "model": c["ops"][n]["after"]},
                    "got": {"length": gl, "starts": g}})
    finally:
        shutil.rmtree(base)


if __name__ == "__main__":
    vt.main("C04", body)
