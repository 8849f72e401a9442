"""C06: the batch entry points (spec/Batch.tla)."""
import contextlib
import copy
import http.server
import json
import os
import random
import socket
import sys
import tempfile
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import vt  # noqa: E402

KBS = {"a": {"TESTING LETTERS": "Test.Lett.", "ANNALS OF TESTS": "Ann.Tests;B"},
       "b": {"TESTING LETTERS": "Other.J."},
       "missing": "/nonexistent/journals.kb"}


class Bad(str):
    """A text whose use fails."""
    error = RuntimeError


def _fail(name):
    def method(self, *args, **kw):
        raise self.error("use of %s" % name)
    return method


for _n in ("split", "splitlines", "replace", "strip", "lstrip", "rstrip", "upper", "lower", "encode", "translate", "find", "join",
           "startswith", "endswith", "isspace", "__iter__", "__getitem__", "__add__", "__len__"):
    setattr(Bad, _n, _fail(_n))
# a request is asked whether it has a text first
Bad.__len__ = lambda self: 4


class Late(str):
    """A text whose lines are found but cannot be used."""
    error = RuntimeError

    def split(self, *args, **kw):
        out = []
        for part in str(self).split(*args, **kw):
            b = type("Bad%s" % self.error.__name__, (Bad,), {"error": self.error})(part)
            out.append(b)
        return out

    splitlines = split


def bad(kind, error, text="[1] A. Smith, Testing Letters 12 (1999) 34"):
    if error is UnicodeDecodeError:
        class error(UnicodeDecodeError):     # noqa: N801
            def __init__(self, text):
                UnicodeDecodeError.__init__(self, "utf-8", b"x", 0, 1, text)
    return type(kind.__name__ + error.__name__, (kind,), {"error": error})(text)


def J(title, volume, year, page, **kw):
    d = {"journal_title": [title], "journal_volume": [volume], "journal_year": [year], "journal_page": [page],
         "journal_reference": ["%s,%s,%s" % (title, volume, page)], "year": [year]}
    d.update({k: [v] for k, v in kw.items()})
    return d


def info(title, volume, year, page, misc=""):
    return {"type": "JOURNAL", "misc_txt": misc, "title": title, "volume": volume, "year": year, "page": page,
            "is_ibid": False, "extra_ibids": []}


LEFT = object()


def pool():
    """id -> (text, {kb: (records of the text, publication information)})"""
    out = {}

    def add(name, text, recs, found):
        out[name] = (text, recs, found)

    t = "[1] A. Smith, Testing Letters 12 (1999) 34"
    add("one", t, lambda k: [J(k("Test.Lett.", "Other.J."), "12", "1999", "34", author="A. Smith", linemarker="1", raw_ref=t)],
        lambda k: info(k("Test.Lett.", "Other.J."), "12", "1999", "34", ", "))
    t2 = "[2] Testing Letters 5 (1990) 6; B. Jones, Testing Letters 13 (2000) 35"
    add("two", t2, lambda k: [J(k("Test.Lett.", "Other.J."), "5", "1990", "6", linemarker="2", raw_ref=t2),
                              J(k("Test.Lett.", "Other.J."), "13", "2000", "35", linemarker="2", raw_ref=t2, author="B. Jones")],
        lambda k: info(k("Test.Lett.", "Other.J."), "5", "1990", "6"))
    t3 = "M\u00fcller, Testing Letters A7 (1998) 34-36"
    add("page range", t3, lambda k: [J(k("Test.Lett.", "Other.J."), "A7", "1998", "34-36", raw_ref=t3, misc="M\u00fcller")],
        lambda k: info(k("Test.Lett.", "Other.J."), "A7", "1998", "34-36", "M\u00fcller, "))
    t4 = "some unpublished notes"
    add("no journal", t4, lambda k: [{"raw_ref": [t4], "misc": [t4]}], lambda k: None)
    t5 = "[3] Testing Letters 1 (1991) 2\n[4] Testing Letters 3 (1992) 4"
    add("two lines", t5, lambda k: [J(k("Test.Lett.", "Other.J."), "1", "1991", "2", linemarker="3", raw_ref=t5.split("\n")[0]),
                                    J(k("Test.Lett.", "Other.J."), "3", "1992", "4", linemarker="4", raw_ref=t5.split("\n")[1])],
        lambda k: info(k("Test.Lett.", "Other.J."), "1", "1991", "2"))
    t6 = "[5] Annals of Tests 50 (1994) 123"
    add("letter", t6, lambda k: k([J("Ann.Tests", "B50", "1994", "123", linemarker="5", raw_ref=t6)],
                                  [{"linemarker": ["5"], "raw_ref": [t6], "misc": ["Annals of Tests 50  123"], "year": ["1994"]}]),
        lambda k: k(info("Ann.Tests", "B50", "1994", "123"), None))
    for name, blank in (("spaces", "   "), ("blank lines", "\n\n")):
        add(name, blank, lambda k: [], lambda k: None)
    add("empty", "", lambda k: [], LEFT)
    for name, value in (("none", None), ("number", 12), ("bytes", b"[1] foo"), ("list", ["foo"])):
        add(name, value, None, LEFT if value is None else None)
    for kind in (Bad, Late):
        for error in (KeyError, ValueError, RecursionError, MemoryError, OSError, UnicodeDecodeError, StopIteration, AttributeError,
                      AssertionError, ZeroDivisionError, NotImplementedError):
            # the text of a request is not split into lines
            add("%s %s" % (kind.__name__, error.__name__), bad(kind, error), None, None)
    return out


POOL = pool()
LIST_INPUTS = [n for n in POOL]
INFO_INPUTS = [n for n in POOL if not n.startswith("Late")]
EXTRA_INFO = ["no text key", "other keys", "not a dictionary"]
URLS = ["ok", "404", "500", "refused", "empty", "binary", "broken", "ok2", "redirect", "no scheme", "url none"]
BODY = "Title\nReferences\n%s\n"
DOCS = {"ok": POOL["one"][0], "ok2": POOL["two"][0], "redirect": POOL["one"][0]}


def results():
    """The constant Result: what each input alone gives, and the records with their ids."""
    table, res = [], {}

    def ids(recs):
        out = []
        for r in recs:
            table.append(r)
            out.append(len(table) - 1)
        return out

    FAIL = {"kind": "fails", "records": []}
    for kbn in KBS:
        pick = {"a": lambda x, y: x, "b": lambda x, y: y}.get(kbn)
        for n, (text, recs, found) in POOL.items():
            r = FAIL if recs is None or kbn == "missing" else {"kind": "found", "records": ids(recs(pick))}
            res["list", n, kbn] = r
            res["text", n, kbn] = r
            if found is LEFT:
                res["journal_info", n, kbn] = {"kind": "found", "records": []}
            elif found is None or kbn == "missing":
                res["journal_info", n, kbn] = FAIL
            else:
                got = found(pick)
                res["journal_info", n, kbn] = {"kind": "found", "records": ids([got] if got else [])}
        for n in EXTRA_INFO:
            res["journal_info", n, kbn] = FAIL if n == "not a dictionary" else {"kind": "found", "records": []}
        for u in URLS:
            if kbn != "missing" and u in ("ok", "ok2", "redirect"):
                res["url", u, kbn] = {"kind": "found", "records": ids(POOL["two" if u == "ok2" else "one"][1](pick))}
            else:
                res["url", u, kbn] = FAIL
    return table, res


class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *args):
        pass

    def do_GET(self):
        name = self.path.strip("/")
        if name == "redirect":
            self.send_response(302)
            self.send_header("Location", "/ok")
            self.end_headers()
            return
        if name in ("404", "500"):
            self.send_response(int(name))
            self.end_headers()
            return
        data = {"ok": BODY % DOCS["ok"], "ok2": BODY % DOCS["ok2"], "broken": BODY % DOCS["ok"], "empty": ""}.get(name, "")
        data = b"\x7fELF\x02\x01\x01\x00\x00" if name == "binary" else data.encode()
        self.send_response(200)
        self.send_header("Content-Length", str(len(data) + (20 if name == "broken" else 0)))
        self.end_headers()
        self.wfile.write(data)
        self.close_connection = True


def serve():
    server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    threading.Thread(target=server.serve_forever, daemon=True).start()
    with contextlib.closing(socket.socket()) as s:
        s.bind(("127.0.0.1", 0))
        closed = s.getsockname()[1]
    return server, server.server_address[1], closed


def value(entry, name, ports):
    if entry == "url":
        if name == "refused":
            return "http://127.0.0.1:%d/x" % ports[1]
        return {"no scheme": "not a url", "url none": None}.get(name, "http://127.0.0.1:%d/%s" % (ports[0], name))
    if entry == "journal_info":
        if name in EXTRA_INFO:
            return {"no text key": {}, "other keys": {"journal_title": "Testing Letters", "pubinfo_freetext": None},
                    "not a dictionary": ["pubinfo_freetext"]}[name]
        return {"pubinfo_freetext": POOL[name][0]}
    return POOL[name][0]


def replay(case):
    from refextract import extract
    ports = [int(p) for p in os.environ["C06_PORTS"].split()]
    out = []
    for call in case:
        kb = copy.deepcopy(KBS[call["kb"]])
        inputs = [value(call["entry"], n, ports) for n in call["inputs"]]
        kept = list(inputs)
        if call["entry"] == "list":
            got = vt.guarded(lambda: extract.extract_references_from_list(inputs, kb))
        elif call["entry"] == "journal_info":
            got = vt.guarded(lambda: extract.extract_journal_info(inputs, kb))
        elif call["entry"] == "text":
            got = vt.guarded(lambda: extract.extract_references_from_text(inputs[0], kb))
        else:
            got = vt.guarded(lambda: extract.extract_references_from_file_url(inputs[0], kb))
        if "ok" in got:
            got = {"ok": mark(call["entry"], got["ok"], inputs)}
        same = len(kept) == len(inputs) and all(x is y for x, y in zip(kept, inputs)) and kb == KBS[call["kb"]]
        out.append(dict(got, inputs_kept=same))
    return out


def mark(entry, got, inputs):
    """The answer in a form that can be passed between processes: an unchanged input is replaced by a note."""
    if entry != "list" or not isinstance(got, dict) or not isinstance(got.get("extracted_references"), list):
        return json.loads(json.dumps(got, default=repr))
    recs = []
    for n, r in enumerate(got["extracted_references"]):
        if isinstance(r, dict) and set(r) == {"raw_ref"} and len(r["raw_ref"]) == 1 and n < len(inputs) and r["raw_ref"][0] is inputs[n]:
            recs.append("unchanged")
        else:
            recs.append(json.loads(json.dumps(r, default=repr)))
    return {"extracted_references": recs, **{k: repr(v) for k, v in got.items() if k != "extracted_references"}}


def expected(call, table):
    a = call["answer"]
    if a["none"]:
        return None
    one = {"raw": lambda x: "unchanged", "nothing": lambda x: {}, "records": lambda x: table[x["records"][0]]}
    if call["entry"] == "list":
        return {"extracted_references": [one[x["kind"]](x) for x in a["answers"]]}
    if call["entry"] == "journal_info":
        return {"extracted_publication_infos": [one[x["kind"]](x) for x in a["answers"]]}
    return {"extracted_references": [table[i] for i in a["answers"][0]["records"]]}


def body(chk):
    deep = vt.tier() == "thorough"
    rng = random.Random(vt.seed())
    table, res = results()
    order = {"list": LIST_INPUTS, "text": LIST_INPUTS, "journal_info": INFO_INPUTS + EXTRA_INFO, "url": URLS}
    res_fun = vt.Raw(vt.tla_value({e: [{k: res[e, n, k] for k in KBS} for n in order[e]] for e in order}))

    def job(label, lists, infos, texts, urls, kbs, n, calls, simulate=None):
        kw = dict(invariants=["OneAnswerEach", "Isolated", "AllOrNothing", "NoMemory", "Emit"], label=label)
        if simulate:
            kw.update(simulate=simulate, depth=(n + 2) * calls + 1)
        names = {"list": lists, "journal_info": infos, "text": texts, "url": urls}
        return ("Batch", {"Entries": {e for e in names if names[e]}, "Inputs": vt.Raw(vt.tla_value({e: {order[e].index(n) + 1 for n in v} for e, v in names.items()})),
                          "Kbs": set(kbs), "Result": res_fun, "MaxInputs": n, "MaxCalls": calls}, kw)

    some = ["one", "two", "no journal", "spaces", "none", "Bad KeyError", "Late ValueError"]
    jobs = [
        job("pairs of references", LIST_INPUTS, [], [], [], KBS, 2, 1),
        job("lists of references", some, [], [], [], ["a", "missing"], 5 if deep else 4, 1),
        job("pairs of requests", [], INFO_INPUTS + EXTRA_INFO, [], [], KBS, 2, 1),
        job("lists of requests", [], ["one", "two", "no journal", "empty", "no text key", "Bad KeyError", "not a dictionary"], [], [],
            ["a", "missing"], 5 if deep else 4, 1),
        job("texts and URLs", [], [], LIST_INPUTS, URLS, KBS, 1, 1),
        job("sequences", ["one", "Bad ValueError"], ["one", "letter", "Bad ValueError"], ["two", "none"], ["ok", "404"], KBS, 1, 2),
        job("long lists", LIST_INPUTS, INFO_INPUTS + EXTRA_INFO, LIST_INPUTS, URLS, KBS, 9, 3, simulate=3000 if deep else 300),
        job("long good lists", ["one", "two", "page range", "no journal", "spaces", "letter"],
            ["one", "two", "page range", "no journal", "letter", "spaces", "no text key"], ["one"], ["ok"], ["a", "b"], 12, 2,
            simulate=2000 if deep else 200),
    ]
    cases, seen = [], set()
    for r in chk.tlc_many(jobs):
        for c in r.records:
            for x in c:
                x["inputs"] = [order[x["entry"]][i - 1] for i in x["inputs"]]
            k = json.dumps([[x["entry"], x["kb"], x["inputs"]] for x in c])
            if k not in seen:
                seen.add(k)
                cases.append(c)
    cap = 60000 if deep else 9000
    if len(cases) > cap:
        cases = rng.sample(cases, cap)
    server, port, closed = serve()
    old, scratch = tempfile.tempdir, tempfile.mkdtemp(prefix="c06_")
    os.environ["C06_PORTS"] = "%d %d" % (port, closed)
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        os.environ.pop(k, None)
    tempfile.tempdir = scratch
    try:
        outs = vt.pool_map(replay, cases, chunk=40)
    finally:
        tempfile.tempdir = old
        server.shutdown()
        import shutil
        shutil.rmtree(scratch)
    for c, out in zip(cases, outs):
        for call, o in zip(c, out):
            chk.validated += 1
            want = expected(call, table)
            if chk.validated % 1999 == 3:
                chk.sample({"call": call["entry"], "inputs": call["inputs"], "answer": want})
            detail = {"calls": [[x["entry"], x["kb"], x["inputs"]] for x in c], "call": [call["entry"], call["kb"], call["inputs"]],
                      "expected": want, "got": o}
            if "ok" not in o:
                chk.violation("a batch entry point raised", detail)
            elif o["ok"] != want:
                chk.violation("other answers than those of the single inputs", detail)
            elif not o["inputs_kept"]:
                chk.violation("the inputs were modified", detail)


if __name__ == "__main__":
    vt.main("C06", body)
