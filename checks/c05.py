"""C05: paths, kinds of documents, encodings, raw and layout text (spec/FileDispatch.tla)."""
import gzip
import io
import json
import os
import random
import shutil
import socket
import sys
import tempfile
import zipfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import kb, pdfgen, vt  # noqa: E402

TEXTS = {("title", 0): "References", ("t", 0): "some plain words", ("t", 1): "more words of m\u00fcller and others",
         ("t", 2): "na\u00efve \u00e9t\u00e9 with accents", ("t", 3): "word " * 3000 + "end"}


def text_of(sym):
    kind, n = sym
    if kind == "n":
        return "[%d] J. M\u00fcller and A. Smith, Phys. Rev. D %d (1994) 12%d" % (n, 40 + n, n)
    return TEXTS[kind, n]


def zipped():
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        z.writestr(zipfile.ZipInfo("a.txt"), "References\n[1] foo\n")
    return b.getvalue()


REF = b"References\n[1] A. Smith, Phys. Rev. D 50 (1994) 123\n"
OTHER = {
    "empty": b"", "png": b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR" + bytes(range(200)), "elf": b"\x7fELF\x02\x01\x01" + bytes(64),
    "zip": zipped(), "gzip": gzip.compress(REF, mtime=0), "html": b"<!DOCTYPE html>\n<html><body>References [1] foo</body></html>\n",
    "postscript": b"%!PS-Adobe-3.0\n" + REF, "binary": bytes(range(256)) * 8, "zeros": bytes(100), "gif": b"GIF89a" + bytes(30),
    "xml": b'<?xml version="1.0"?>\n<a>References</a>\n',
}
PATHS = ["missing", "missing directory", "directory", "broken link", "link to directory", "loop", "fifo", "socket", "empty name", "nul",
         "slash", "below file", "too long", "bad bytes"]
PLACES = ["paper.pdf", "paper.txt", "paper", "paper.png", "a b.txt", "\u00fcn\u00ef.pdf", "-q", "-layout.pdf", "--help", ".hidden", "%s{}.pdf",
          "x" * 200, "a;b|c$d'e\"f.pdf", "new\nline.txt", "\udcff\udcfe.pdf", "~", "*.pdf", "\u202eabc.txt"]
FORMS = ["absolute", "relative", "dot", "detour"]


def encode(lines, way):
    enc, eol, final = way.split("|")
    text = {"LF": "\n", "CRLF": "\r\n", "CR": "\r"}[eol].join(lines) + ({"LF": "\n", "CRLF": "\r\n", "CR": "\r"}[eol] if final == "final" else "")
    if enc == "bom":
        return text.encode("utf-8-sig")
    if enc == "mixed":
        # one line in another encoding than the others
        cut = len(text) // 2
        return text[:cut].encode("utf-8") + text[cut:].encode("latin-1")
    return text.encode(enc)


def decoded(lines, way):
    """The lines as they should be read: bytes that are no UTF-8 are replaced, nothing else is lost."""
    data = encode(lines, way)
    text = data.decode("utf-8-sig", errors="replace")
    return text.replace("\r\n", "\n").replace("\r", "\n").split("\n")


def pdf(case):
    """Lines in the order of the stream, placed as on the page."""
    lines, page = [tuple(x) for x in case["lines"]], [tuple(x) for x in case["page"]]
    left = list(range(len(page)))
    rows = []
    for sym in lines:
        k = next(i for i in left if page[i] == sym)
        left.remove(k)
        rows.append((k, text_of(sym).encode("latin-1", "replace").decode("latin-1")))
    step = 14
    if case["way"] == "two pages":
        half = (len(rows) + 1) // 2
        pages = [{"text": [(60, 740 - step * (k % half if k >= half else k), s) for k, s in rows if (k >= half) == second]} for second in (False, True)]
        pages = [p for p in pages if p["text"]]
    else:
        pages = [{"text": [(60, 740 - step * k, s) for k, s in rows]}]
    data = pdfgen.Pdf(pages, version="1.7" if case["way"] == "1.7" else "1.4").render()
    if case["way"] == "junk":
        data = b"HTTP/1.1 200 OK\r\n\r\n" + data + b"\0\0trailing junk"
    return data


DAMAGE = ["half", "header", "no xref", "zeroed", "shuffled", "tenth", "nine tenths", "bad length", "no catalog", "bits"]


def damaged(case):
    data = pdf(dict(case, way=""))
    kind = case["way"]
    n = len(data)
    if kind in ("half", "tenth", "nine tenths"):
        return data[:{"half": n // 2, "tenth": n // 10, "nine tenths": n * 9 // 10}[kind]]
    if kind == "header":
        return b"%PDF-1.4\n"
    if kind == "no xref":
        return data[:data.rindex(b"xref\n0")]
    if kind == "zeroed":
        return data[:200] + bytes(100) + data[300:]
    if kind == "shuffled":
        return data[:100] + data[300:500] + data[100:300] + data[500:]
    if kind == "bad length":
        return data.replace(b"/Length ", b"/Length 9")
    if kind == "no catalog":
        return data.replace(b"/Catalog", b"/Catalox")
    b = bytearray(data)
    for i in range(20, n, 97):
        b[i] ^= 5
    return bytes(b)


def build(case, work):
    """Makes the file; returns the path to pass and the directory to be in."""
    name, form = case["place"].rsplit("|", 1)
    kind = case["path"]
    d = os.path.join(work, "d")
    os.makedirs(os.path.join(work, "other"))
    os.makedirs(d)
    path = os.path.join(d, name)
    if kind in ("file", "link"):
        c = case["content"]
        if c in OTHER:
            data = OTHER[c]
        elif c == "text":
            data = encode([text_of(tuple(x)) for x in case["lines"]], case["way"])
        elif c == "pdf":
            data = pdf(case)
        else:
            data = damaged(case)
        real = path if kind == "file" else os.path.join(work, "other", "target.bin")
        with open(real, "wb") as fh:
            fh.write(data)
        if kind == "link":
            os.symlink("../other/target.bin", path)
    elif kind == "directory":
        os.makedirs(path)
    elif kind == "broken link":
        os.symlink("nowhere", path)
    elif kind == "link to directory":
        os.symlink("../other", path)
    elif kind == "loop":
        os.symlink(name, path)
    elif kind == "fifo":
        os.mkfifo(path)
    elif kind == "socket":
        s = socket.socket(socket.AF_UNIX)
        old = os.getcwd()
        os.chdir(d)
        s.bind(name[:50])
        os.chdir(old)
        s.close()
        path, name = os.path.join(d, name[:50]), name[:50]
    if kind == "empty name":
        return "", d
    if kind == "nul":
        return path + "\0x", d
    if kind == "missing directory":
        return os.path.join(work, "no", "such", "dir", name), d
    if kind == "slash":
        with open(path, "wb") as fh:
            fh.write(REF)
        return path + "/", d
    if kind == "below file":
        with open(path, "wb") as fh:
            fh.write(REF)
        return os.path.join(path, "x.pdf"), d
    if kind == "too long":
        return os.path.join(d, "y" * 3000), d
    if kind == "bad bytes":
        return os.path.join(d, "\udce4\udcf6"), d
    return {"absolute": path, "relative": name, "dot": os.path.join(".", name), "detour": os.path.join("..", "d", name)}[form], d


def extract(path):
    from refextract.references.api import extract_references_from_file
    from refextract.references import errors

    def go():
        try:
            refs = extract_references_from_file(path, override_kbs_files=kb.SMALL)
        except errors.FullTextNotAvailableError:
            return "full text not available", None
        except errors.UnknownDocumentTypeError:
            return "unknown document type", None
        if not isinstance(refs, list):
            return "no list", repr(refs)[:200]
        out = []
        for r in refs:
            raw = r["raw_ref"][0]
            if not out or out[-1] != raw:
                out.append(raw)
        return "references", out
    return vt.guarded(go)


def replay(case):
    work = tempfile.mkdtemp(prefix="c05_", dir=os.environ["C05_DIR"])
    old = os.getcwd()
    try:
        path, d = build(case, work)
        os.chdir(d)
        if case.get("as") == "nobody":
            return as_nobody(path, work)
        return extract(path)
    finally:
        os.chdir(old)
        shutil.rmtree(work)


def as_nobody(path, work):
    """The document can be read but not written."""
    for base, dirs, files in os.walk(work):
        os.chmod(base, 0o555)
        for f in files:
            os.chmod(os.path.join(base, f), 0o444)
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            data = json.dumps(extract(path))
        except BaseException as exc:  # noqa: B902
            data = json.dumps({"exc": repr(exc)})
        os.write(w, data.encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return json.loads(data.decode() or '{"exc": "died"}')


def can_drop():
    pid = os.fork()
    if not pid:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            import refextract.references.api  # noqa: F401
            os.listdir(os.environ["C05_DIR"])
            os._exit(0)
        except BaseException:  # noqa: B902
            os._exit(1)
    return os.waitpid(pid, 0)[1] == 0


def squeeze(text):
    return " ".join(text.split())


def body(chk):
    deep = vt.tier() == "thorough"
    rng = random.Random(vt.seed())
    NUM = [("n", 1), ("n", 2), ("n", 3)]
    TITLE, T = ("title", 0), [("t", i) for i in range(4)]
    ways = ["%s|%s|%s" % (e, n, f) for e in ("utf-8", "latin-1", "cp1252", "bom", "mixed") for n in ("LF", "CRLF", "CR") for f in ("final", "open")]
    places = ["%s|%s" % (p, f) for p in PLACES for f in FORMS]

    def job(label, paths=("file",), places=("paper.pdf|absolute",), contents=("text",), ways=(), lines=(TITLE, NUM[0]), n=2, shuffles=("same",)):
        return ("FileDispatch", {"Paths": set(paths), "Places": set(places), "Contents": set(contents), "Lines": vt.set_of(lines),
                                 "Ways": vt.set_of(ways), "MaxLines": n, "Shuffles": set(shuffles)},
                dict(invariants=["TypeOK", "OnlyDocumentedErrors", "NoLineLost", "Emit"], label=label))

    one = [("text", "utf-8|LF|final"), ("pdf", "plain")]
    none = [(c, "") for c in OTHER]
    some_places = ["paper.pdf|absolute", "paper.txt|relative", "-q|relative", "a b.txt|dot", "paper.png|detour"]
    jobs = [
        job("paths", paths=PATHS + ["file", "link"], places=places, contents=["text"], ways=one[:1]),
        job("names", paths=["file", "link"], places=places, contents=["pdf"], ways=one[1:]),
        job("other contents", paths=["file", "link"], places=some_places, contents=list(OTHER), ways=none),
        job("encodings", contents=["text"], ways=[("text", w) for w in ways], lines=[TITLE, *NUM[:2], T[0], T[2]], n=5 if deep else 4,
            places=some_places[:2] if deep else some_places[:1]),
        job("long lines", contents=["text"], ways=[("text", w) for w in ways[:2]], lines=[TITLE, *NUM, T[3]], n=4),
        job("PDFs", contents=["pdf"], ways=[("pdf", w) for w in ("plain", "two pages", "1.7", "junk")], lines=[TITLE, *NUM[:2], T[0], T[1]],
            n=5 if deep else 4),
        job("orders", contents=["pdf"], ways=one[1:], lines=[*NUM[:2], T[0]], n=9 if deep else 8, shuffles=["same", "reversed", "rotated", "swapped"]),
        job("damaged PDFs", contents=["damaged"], ways=[("pdf", w) for w in DAMAGE], lines=[TITLE, *NUM[:2], T[0]], n=4,
            places=some_places[:1]),
    ]
    cases, fallbacks = [], 0
    for (module, consts, kw), r in zip(jobs, chk.tlc_many(jobs)):
        recs = r.records
        seen = {}
        for c in recs:
            key = json.dumps(c, sort_keys=True)
            seen[key] = c
        recs = list(seen.values())
        cap = {"orders": 12000 if deep else 1500, "encodings": 10000 if deep else 3000}.get(kw["label"], 10000 if deep else 1500)
        if kw["label"] == "orders":
            # those where the two orders differ in what is found come first
            recs.sort(key=lambda c: (not (c["fallback"] and c["refs"]), json.dumps(c["lines"])))
            special = [c for c in recs if c["fallback"] and c["refs"]]
            rest = [c for c in recs if not (c["fallback"] and c["refs"])]
            recs = (special if len(special) <= cap // 2 else rng.sample(special, cap // 2))
            recs += rest if len(rest) <= cap // 2 else rng.sample(rest, cap // 2)
            fallbacks = sum(1 for c in recs if c["fallback"] and c["refs"])
        elif len(recs) > cap:
            recs = rng.sample(recs, cap)
        cases += recs
    base = tempfile.mkdtemp(prefix="c05_")
    os.chmod(base, 0o755)
    os.environ["C05_DIR"] = base
    sys.path.insert(0, vt.REPO)
    try:
        drop = can_drop()
        if drop:
            readable = [c for c in cases if c["path"] == "file" and c["outcome"] == "references" and c["way"] != "junk"]
            cases += [dict(c, **{"as": "nobody"}) for c in rng.sample(readable, min(len(readable), 2000 if deep else 150))]
        chk.extra["cases without write permission"] = sum(1 for c in cases if c.get("as"))
        chk.extra["cases found in the page layout only"] = fallbacks
        outs = vt.pool_map(replay, cases, chunk=50)
    finally:
        os.chdir("/")
        shutil.rmtree(base)
    for c, o in zip(cases, outs):
        chk.validated += 1
        flat = [squeeze(text_of(tuple(s))) for ref in c["refs"] for s in ref]
        if c["content"] == "text" and flat:
            # the lines of the references are the last ones of the document
            read = [squeeze(t) for t in decoded([text_of(tuple(s)) for s in c["lines"]], c["way"])][:len(c["lines"])]
            flat = read[-len(flat):]
        want = []
        for ref in c["refs"]:
            want.append(" ".join(flat[:len(ref)]))
            flat = flat[len(ref):]
        detail = {"path": c["path"], "name": c["place"], "content": c["content"], "way": c["way"], "lines": c["lines"], "page": c["page"],
                  "as": c.get("as", "root"), "expected": [c["outcome"], want if c["outcome"] == "references" else None], "got": o}
        detail = json.loads(json.dumps(detail, default=repr).replace("word " * 3000, "word*3000 "))
        if chk.validated % 1499 == 4:
            chk.sample(detail)
        if "ok" not in o:
            chk.violation("the extraction fails", detail)
        elif c["outcome"] == "some references":
            if o["ok"][0] != "references":
                chk.violation("a damaged document is not answered by a list", detail)
        elif o["ok"][0] != c["outcome"]:
            chk.violation("another outcome than the documented one", detail)
        elif c["outcome"] == "references" and o["ok"][1] != want:
            chk.violation("other references than those in the lines of the document", detail)


if __name__ == "__main__":
    vt.main("C05", body)
