"""C03: extraction from URLs (spec/UrlFetch.tla)."""
import gzip
import json
import os
import random
import resource
import shutil
import signal
import socket
import struct
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import kb, pdfgen, vt  # noqa: E402

TEXT = "A title\nsome text\nReferences\n[1] A. Smith, Phys. Rev. D 50 (1994) 123\n[2] M\u00fcller, JHEP 01 (2001) 12\n"
LONG = "A title\nReferences\n" + "".join("[%d] A. Smith, Phys. Rev. D %d (1994) %d\n" % (i, i + 10, i + 100) for i in range(1, 60))


def documents():
    lines = ["Some title", "References", "[1] A. Smith, Phys. Rev. D 50 (1994) 123", "[2] B. Jones, JHEP 01 (2001) 12"]
    pdf = pdfgen.Pdf([{"text": [(60, 740 - 14 * i, s) for i, s in enumerate(lines)], "links": [(60, 700, 200, 711, "https://example.org/a")]}],
                     dests=[("cite.Smith:1994", 0, 60, 722), ("cite.Jones:2001", 0, 60, 708)]).render()
    return {
        "text": ("text", TEXT.encode("utf-8")), "latin": ("text", TEXT.encode("latin-1")), "long": ("text", LONG.encode()),
        "crlf": ("text", TEXT.replace("\n", "\r\n").encode()), "none": ("text", b"just some text\n"),
        "pdf": ("pdf", pdf), "junk": ("pdf", b"junk before\n" + pdf + b"junk after"),
        "png": ("unknown", b"\x89PNG\r\n\x1a\n" + bytes(range(256)) * 4), "empty": ("empty", b""),
    }


DOCS = documents()
NAMES = ["paper.pdf", "paper.txt", "", "x" * 300 + ".pdf", "\u00fc\u4f60\U0001f600" * 40 + ".pdf", "a%20b%2Fc.pdf", "doc?file=1&x=2.pdf",
         "-q", "doc.pdf#page=3", "with space.pdf", ".hidden", "1402.1234v1", "%s{0}%d.pdf", "x..", "a;b|c$d'e\"f.pdf"]
CHUNK_SIZES = [1, 7, 1024, None, 100000]
HEADERS = [None, {"User-Agent": "InspireHEP/1.0"}, {"X-One": "1", "Accept": "application/pdf"}]
SAFE = "abc"


class Server:
    """Answers request number n of case i as the specification says."""

    def __init__(self, cases):
        self.cases, self.seen = cases, {}
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(200)
        self.port = self.sock.getsockname()[1]
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.closed = s.getsockname()[1]
        s.close()
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                conn, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(conn,), daemon=True).start()

    def one(self, conn):
        try:
            conn.settimeout(60)
            conn.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            data = b""
            while b"\r\n\r\n" not in data:
                got = conn.recv(65536)
                if not got:
                    return
                data += got
            head = data.split(b"\r\n\r\n")[0].decode("latin-1").split("\r\n")
            target = head[0].split(" ")[1].split("?")[0]
            _, _, number, hop, pid = target.split("/")[:5]
            headers = {k.strip().lower(): v.strip() for k, v in (line.split(":", 1) for line in head[1:])}
            self.seen.setdefault(int(number), []).append(headers)
            self.answer(conn, self.cases[int(number)], int(number), int(hop), int(pid))
        except OSError:
            pass
        finally:
            conn.close()

    def reset(self, conn):
        conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))

    def interrupt(self, conn, pid):
        time.sleep(0.02)
        os.kill(pid, signal.SIGUSR1)
        conn.settimeout(20)
        try:
            conn.recv(1)          # until the client leaves
        except OSError:
            pass

    def answer(self, conn, case, number, hop, pid):
        plan, fault = case["plan"], case["fault"]
        port, where = self.port, "/c/%d/%d/%d/%s" % (number, hop + 1, pid, SAFE)
        if hop < len(plan["hops"]) or fault["what"] == "loop":
            kind = plan["hops"][hop] if hop < len(plan["hops"]) else "302"
            if fault["what"] == "refused" and hop + 1 == len(plan["hops"]):
                port = self.closed
            if kind == "307" and port == self.port:
                location = where
            else:
                location = "http://127.0.0.1:%d%s" % (port, where)
            conn.sendall(("HTTP/1.1 %s Moved\r\nLocation: %s\r\nContent-Length: 5\r\nConnection: close\r\n\r\nmoved" % (kind, location)).encode())
            return
        if fault["at"] == "request":
            if fault["what"] == "garbage":
                conn.sendall(b"HELLO THERE\r\n\r\nwhat?")
            elif fault["what"] == "interrupt":
                self.interrupt(conn, pid)
            elif fault["what"] == "reset":
                self.reset(conn)
            return
        data = DOCS[plan["doc"]][1]
        head = ["HTTP/1.1 %d Status" % plan["status"], "Content-Type: application/octet-stream", "Connection: close"]
        if plan["framing"] == "gzip":
            data = gzip.compress(data, mtime=0)
            head.append("Content-Encoding: gzip")
        cut = fault["at"] == "transfer"
        if plan["framing"] == "chunked":
            head.append("Transfer-Encoding: chunked")
        elif plan["framing"] != "close":
            head.append("Content-Length: %d" % (len(data) + (20 if cut and not data else 0)))
        conn.sendall(("\r\n".join(head) + "\r\n\r\n").encode())
        size = -(-len(data) // case["chunks"]) or 1
        parts = [data[size * i:size * (i + 1)] for i in range(case["chunks"])]
        for i, part in enumerate(parts):
            if cut and i == case["sent"]:
                break
            if case["pause"]:
                time.sleep(0.002)
            if plan["framing"] == "chunked":
                if part:
                    conn.sendall(b"%x\r\n" % len(part) + part + b"\r\n")
            elif part:
                conn.sendall(part)
        if cut:
            if fault["what"] == "interrupt":
                self.interrupt(conn, pid)
            elif fault["what"] == "reset":
                time.sleep(0.005)
                self.reset(conn)
            elif fault["what"] == "garbage":
                conn.sendall(b"zz\r\n" if plan["framing"] == "chunked" else b"")
        elif plan["framing"] == "chunked":
            conn.sendall(b"0\r\n\r\n")

    def stop(self):
        self.sock.close()


class Signalled(BaseException):
    pass


_signal = {"came": False, "inside": False}


def _on_signal(signum, frame):
    _signal["came"] = True
    if _signal["inside"]:
        _signal["inside"] = False
        raise Signalled()


_alone = {}


def alone(doc):
    """What the same bytes give as a local file."""
    if doc not in _alone:
        from refextract.references.api import extract_references_from_file
        d = tempfile.mkdtemp(prefix="c03_local_")
        try:
            path = os.path.join(d, "local")
            with open(path, "wb") as fh:
                fh.write(DOCS[doc][1])
            _alone[doc] = vt.guarded(lambda: extract_references_from_file(path, override_kbs_files=kb.SMALL))
        finally:
            shutil.rmtree(d)
    return _alone[doc]


def linker_error(use):
    import requests
    from refextract.references.errors import FullTextNotAvailableError
    return {"linker ValueError": ValueError("x"), "linker HTTPError": requests.exceptions.HTTPError("x"),
            "linker ConnectionError": requests.exceptions.ConnectionError("x"), "linker OSError": OSError(28, "x"),
            "linker exit": SystemExit(3), "linker interrupt": KeyboardInterrupt(),
            "linker FullTextNotAvailableError": FullTextNotAvailableError("other")}[use]


def replay(case):
    _signal.update(came=False, inside=False)
    try:
        return _replay(case)
    finally:
        _signal["inside"] = False
        end = time.time() + 3
        while case["fault"]["what"] == "interrupt" and not _signal["came"] and time.time() < end:
            time.sleep(0.01)     # it must not come during the next case


def _replay(case):
    import requests
    from refextract.references import errors
    from refextract.references.api import extract_references_from_url
    plan, fault = case["plan"], case["fault"]
    port, closed = [int(x) for x in os.environ["C03_PORTS"].split()]
    want_refs = alone(plan["doc"]) if plan["doc"] else None
    work = tempfile.mkdtemp(prefix="c03_", dir=os.environ["C03_DIR"])
    os.makedirs(os.path.join(work, "tmp"))
    old = tempfile.tempdir
    tempfile.tempdir = os.path.join(work, "missing" if fault["what"] == "no directory" else "tmp")
    if fault["what"] == "refused" and not plan["hops"]:
        port = closed
    url = "http://127.0.0.1:%d/c/%d/0/%d/%s" % (port, case["number"], os.getpid(), plan["name"])
    if fault["what"] == "bad url":
        url = plan["name"]
    kw = {"override_kbs_files": kb.SMALL}
    error = None
    if plan["use"].startswith("linker"):
        error = linker_error(plan["use"])

        def callback(element):
            raise error
        kw["linker_callback"] = callback
    elif plan["use"] == "missing kb":
        kw["override_kbs_files"] = dict(kb.SMALL, journals="/nonexistent/kb")
    if case["headers"] is not None:
        kw["headers"] = case["headers"]
    if case["chunk_size"] is not None:
        kw["chunk_size"] = case["chunk_size"]
    limits = resource.getrlimit(resource.RLIMIT_FSIZE)
    if fault["what"] == "disk full":
        resource.setrlimit(resource.RLIMIT_FSIZE, (case["limit"], limits[1]))
    signal.signal(signal.SIGUSR1, _on_signal)
    signal.signal(signal.SIGALRM, vt._on_alarm)
    signal.alarm(vt.CASE_LIMIT)
    out = {}
    try:
        _signal["inside"] = True
        refs = extract_references_from_url(url, **kw)
        _signal["inside"] = False
        out["outcome"] = "references"
        out["same"] = {"ok": refs} == want_refs
        if not out["same"]:
            out["refs"], out["local"] = refs, want_refs
    except vt.Hang:
        out["outcome"] = "no answer"
    except BaseException as exc:  # noqa: B902
        _signal["inside"] = False
        if exc is error:
            out["outcome"] = "error of the extraction"
        elif isinstance(exc, errors.FullTextNotAvailableError):
            out["outcome"] = "full text not available"
        elif isinstance(exc, errors.UnknownDocumentTypeError):
            out["outcome"] = "unknown document type"
        elif isinstance(exc, Signalled):
            out["outcome"] = "interrupt"
        elif isinstance(exc, requests.exceptions.RequestException):
            out["outcome"] = "request error"
        elif plan["use"] == "missing kb":
            from refextract.references.api import extract_references_from_file
            path = os.path.join(work, "local")
            with open(path, "wb") as fh:
                fh.write(DOCS[plan["doc"]][1])
            local = vt.guarded(lambda: extract_references_from_file(path, override_kbs_files=kw["override_kbs_files"]))
            out["outcome"] = "error of the extraction" if local.get("exc") == type(exc).__name__ else repr(exc)
        elif isinstance(exc, OSError):
            out["outcome"] = "os error"
        else:
            out["outcome"] = repr(exc)
        out["exc"] = repr(exc)[:200]
    finally:
        signal.alarm(0)
        resource.setrlimit(resource.RLIMIT_FSIZE, limits)
        tempfile.tempdir = old
    out["left"] = sorted(os.listdir(os.path.join(work, "tmp")))
    shutil.rmtree(work)
    return out


def body(chk):
    deep = vt.tier() == "thorough"
    rng = random.Random(vt.seed())

    def job(label, chunks=1, names=("paper.pdf",), hops=(), statuses=(200,), framings=("length",), docs=("text",), uses=("fine",),
            conn=(), send=(), store=()):
        return ("UrlFetch", {
            "Names": set(names), "Hops": set(hops), "Statuses": set(statuses), "Framings": set(framings), "Chunks": chunks,
            "Docs": vt.set_of([{"id": d, "kind": DOCS[d][0]} for d in docs]), "Uses": set(uses), "ConnFaults": set(conn),
            "SendFaults": set(send), "StoreFaults": set(store)},
            dict(invariants=["NothingLeft", "NoPartialDocument", "FaultsAreReported", "HttpErrorsOnly", "Emit"], label=label,
                 extra_files={}))

    every = ["length", "chunked", "close", "gzip"]
    conn = ["refused", "no answer", "garbage", "reset", "interrupt", "loop"]
    send = ["cut", "reset", "interrupt"]
    uses = ["fine", "linker ValueError", "linker HTTPError", "linker ConnectionError", "linker OSError", "linker exit",
            "linker interrupt", "linker FullTextNotAvailableError", "missing kb"]
    hops = ["301", "302", "303", "307", "308"]
    specs = [
        dict(label="documents", chunks=3, framings=every, docs=list(DOCS), statuses=[200, 203, 206]),
        dict(label="names", chunks=1, names=NAMES, docs=["text", "pdf"], statuses=[200, 404], store=["no directory"]),
        dict(label="statuses", chunks=2, statuses=[200, 201, 400, 401, 403, 404, 410, 418, 429, 451, 500, 502, 503, 504, 599],
             docs=["text", "pdf", "empty"], framings=["length", "chunked"], hops=["302"]),
        dict(label="redirections", chunks=1, hops=hops, conn=conn, statuses=[200, 404], docs=["text"]),
        dict(label="transfers", chunks=4, send=send, framings=every, docs=["text", "pdf", "long", "junk"], store=["disk full"]),
        dict(label="damaged transfers", chunks=3, send=["garbage"], framings=["chunked"], docs=["text", "long"]),
        dict(label="uses", chunks=2, uses=uses, docs=["text", "pdf", "png", "empty"], framings=["length", "chunked"]),
        dict(label="everything", chunks=8 if deep else 3, uses=uses[:4], docs=["text", "pdf"], names=NAMES[:3], hops=hops[:2], conn=conn, send=send,
             store=["disk full", "no directory"], statuses=[200, 404, 503], framings=every),
    ]
    jobs = [job(**s) for s in specs]
    cases, seen = [], set()
    for s, r in zip(specs, chk.tlc_many(jobs)):
        recs = r.records
        cap = 4000 if deep else 700
        if len(recs) > cap:
            recs = rng.sample(recs, cap)
        for c in recs:
            c["chunks"] = s["chunks"]
            # a transfer of one large document needs the parts to be seen one by one
            k = json.dumps([c["plan"], c["sent"], c["fault"], c["chunks"]])
            if k in seen:
                continue
            seen.add(k)
            cases.append(c)
    # a name without a host
    cases += [dict(cases[0], plan=dict(cases[0]["plan"], name=n, hops=[], doc="", status=0, use="", framing=""), sent=0,
                   fault={"at": "request", "what": "bad url"}, outcome="request error") for n in ("nowhere/paper.pdf", "http://", "foo://x/y.pdf")]
    for n, c in enumerate(cases):
        c["number"] = n
        c["headers"] = HEADERS[rng.randrange(3)]
        c["chunk_size"] = CHUNK_SIZES[rng.randrange(5)]
        c["pause"] = rng.random() < 0.2
        if c["fault"]["what"] == "disk full":
            size = len(DOCS[c["plan"]["doc"]][1])
            c["limit"] = max(1, size * c["sent"] // c["chunks"])
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        os.environ.pop(k, None)
    server = Server(cases)
    base = tempfile.mkdtemp(prefix="c03_")
    os.environ["C03_PORTS"] = "%d %d" % (server.port, server.closed)
    os.environ["C03_DIR"] = base
    try:
        outs = vt.pool_map(replay, cases, chunk=20)
    finally:
        server.stop()
        shutil.rmtree(base)
    for c, o in zip(cases, outs):
        chk.validated += 1
        detail = {"url": c["plan"]["name"], "server": {k: c["plan"][k] for k in ("hops", "status", "framing", "doc")}, "use": c["plan"]["use"],
                  "parts sent": c["sent"], "of": c["chunks"], "went wrong": c["fault"], "chunk_size": c["chunk_size"],
                  "expected": c["outcome"], "got": o}
        if chk.validated % 499 == 1:
            chk.sample(detail)
        if o["left"]:
            chk.violation("a temporary file is left behind", detail)
        if o["outcome"] != c["outcome"]:
            chk.violation("another outcome than the documented one", detail)
        elif o.get("same") is False:
            chk.violation("other references than from the same bytes in a file", detail)
        for got in server.seen.get(c["number"], ()):
            for k, v in (c["headers"] or {}).items():
                if got.get(k.lower()) != v:
                    chk.violation("a header of the caller is missing in the request", dict(detail, headers=c["headers"], received=got))
        if not server.seen.get(c["number"]) and c["fault"]["what"] not in ("bad url", "no directory", "refused"):
            chk.violation("no request was made", detail)


if __name__ == "__main__":
    vt.main("C03", body)
