"""Contents of knowledge bases, and replay of histories of extractions (spec/KbCache.tla)."""
import copy
import os
import shutil
import tempfile

from lib import kb, vt

# one line in which every kind of knowledge base shows
LINE = ("[1] K. Zed, \"A book on A\", Phys. Rev. D 50 (1994) 123, JOFA 12 (2001) 5, CERN-AA-1234, CERN-BB-1234, "
        "ALPHA Collaboration, Foo Verlag, DAN 3 (1999) 4, ZEIT 4 (1998) 6, \"A book on B\" and Du, X.")
LINES = LINE + "\n[2] K. Zed, A book on A, 2000\n[3] K. Zed, Foo Verlag, 2001, A book on B; ALPHA Collaboration, CERN-AA-2345"

CONTENTS = {
    "journals": {
        "A": {"PHYS REV D": "Phys.Rev.;D", "JOFA": "J.A."},
        "B": {"PHYS REV D": "Phys.Rev.B.;D", "JOFB": "J.B."},
        "C": {"JOFA": "J.C.", "PHYS REV": "Phys.Rev."}},
    "collaborations": {"A": {"ALPHA COLLABORATION": "ALPHA"}, "B": {"BETA COLLABORATION": "BETA"}, "C": {"ALPHA": "ALPHA-C"}},
    "publishers": {"A": {"FOO VERLAG": "Foo"}, "B": {"FOO VERLAG": "Bar"}, "C": {"BAZ": "Baz"}},
    "special_journals": {"A": ["J.A."], "B": ["Phys.Rev."], "C": ["J.C.", "J.A."]},
    "report-numbers": {
        "A": ["*****CERN*****", "<s 9999>", "CERN AA---CERN-A"], "B": ["*****CERN*****", "<s 9999>", "CERN BB---CERN-B"],
        "C": ["*****CERN*****", "<s 9999>", "CERN AA---CERN-C"]},
    "journals_re": {"A": ["DAN---Dokl."], "B": ["ZEIT---Zeit."], "C": ["DAN---Dan."]},
    "books": {"A": [("Zed, K.", "A book on A", "2000;")], "B": [("Zed, K.", "A book on B", "2001")], "C": [("Zed, K.", "Other", "2001;")]},
    "authors": {"A": ["Zed---Zeda"], "B": ["Zed---Zedb"], "C": ["Kay---Kai"]},
}
BASE = {k: v["A"] for k, v in CONTENTS.items()}
PRISTINE = copy.deepcopy(BASE)
PAIRS = ("journals", "collaborations", "publishers")     # dictionaries whose files have lines seek---repl


def file_text(kind, content):
    if kind in PAIRS:
        return "# comment\n" + "".join("%s---%s\n" % x for x in content.items())
    if kind == "books":
        return "\n".join("|".join(x) for x in content)
    return "\n".join(content) + "\n"


def bad_text(kind):
    return "no separator here\n"


def forms(kind):
    """Forms in which a knowledge base of a kind can be passed."""
    if kind in PAIRS:
        return ["dict", "lists", "file"]
    return ["lists" if kind == "books" else "list", "file"]


def as_form(kind, form, content):
    if form == "dict":
        return dict(content)
    if form == "lists":
        return [list(x) for x in (content.items() if isinstance(content, dict) else content)]
    if isinstance(content, dict):
        return [tuple(x) for x in content.items()]
    return list(content)


class World:
    """Objects and files of the caller."""

    def __init__(self, kind, objects):
        self.kind, self.objects = kind, objects      # name -> form
        self.dir = tempfile.mkdtemp(prefix="vt_kb_")
        self.things, self.state, self.clock = {}, {}, 1000000000
        for name in objects:
            self.set(name, "A", first=True)

    def path(self, name):
        return os.path.join(self.dir, name + ".kb")

    def set(self, name, content, first=False):
        form = self.objects[name]
        self.state[name] = content
        if form == "file":
            path = self.path(name)
            if content == "missing":
                if os.path.exists(path):
                    os.remove(path)
            else:
                text = bad_text(self.kind) if content == "bad" else file_text(self.kind, CONTENTS[self.kind][content])
                with open(path, "w", encoding="utf-8") as fh:
                    fh.write(text)
                self.clock += 10
                os.utime(path, (self.clock, self.clock))
            self.things[name] = path
            return
        new = as_form(self.kind, form, CONTENTS[self.kind][content])
        if first:
            self.things[name] = new
        elif form == "dict":
            self.things[name].clear()
            self.things[name].update(new)
        elif form == "lists":     # the rows are changed, not replaced
            rows = self.things[name]
            for old, row in zip(rows, new):
                old[:] = row
            rows[len(new):] = []
            rows.extend(new[len(rows):])
        else:
            self.things[name][:] = new

    def intact(self):
        for name, form in self.objects.items():
            content = self.state[name]
            if form == "file":
                path = self.path(name)
                if content == "missing":
                    if os.path.exists(path):
                        return name
                else:
                    text = bad_text(self.kind) if content == "bad" else file_text(self.kind, CONTENTS[self.kind][content])
                    with open(path, encoding="utf-8") as fh:
                        if fh.read() != text:
                            return name
            else:
                want = as_form(self.kind, form, CONTENTS[self.kind][content])
                have = self.things[name]
                if have != want or (form == "dict" and list(have) != list(want)):
                    return name
        return None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


WARM = {
    "journals": {"WARM": "Warm"}, "collaborations": {"WARM": "Warm"}, "publishers": {"WARM": "Warm"}, "special_journals": ["Warm"],
    "report-numbers": ["*****WARM*****", "<s 9999>", "WARM---WARM"], "journals_re": ["WARM---Warm"],
    "books": [("Warm, W.", "Warm", "1999")], "authors": ["Warm---Warn"]}


def warm(_):
    """An extraction with knowledge bases of its own: what comes after it must not depend on it, and is faster."""
    extract(WARM, line="[1] Warm, W., \"Title\", Warm 1 (1999) 2; http://warm.org, doi:10.1000/1")


class Boom(Exception):
    pass


def extract(kbs, entry="string", line=None, fail=False):
    from refextract.references import api
    line = line or (LINES if entry == "string" else LINE)
    if entry == "string":
        def linker(el):
            if el["type"] == "JOURNAL":
                raise Boom()
        kw = {"linker_callback": linker} if fail else {}
        return vt.guarded(lambda: api.extract_references_from_string(line, override_kbs_files=kbs, **kw))
    if entry == "journal":
        return vt.guarded(lambda: api.extract_journal_reference(line, override_kbs_files=kbs))
    raise ValueError(entry)


def spoil(res):
    """The caller modifies what it was given."""
    if isinstance(res, list):
        for ref in res:
            for values in ref.values():
                values.append("spoilt")
            ref["spoilt"] = ["spoilt"]
        res.append({"misc": ["spoilt"]})
    elif isinstance(res, dict):
        res.clear()
        res["spoilt"] = "spoilt"


def run_history(case):
    """Results of the extractions of a history, in this process."""
    kinds = case["kinds"]
    worlds = {k: World(k, case["objects"]) for k in kinds}
    out = []
    try:
        for op in case["log"]:
            if op["op"] == "modify":
                for world in worlds.values():
                    world.set(op["o"], op["c"])
                continue
            kbs = dict(BASE)
            for kind in kinds:
                src = op["src"][kind]
                if src == "default":
                    del kbs[kind]
                else:
                    kbs[kind] = worlds[kind].things[src]
            before = dict(kbs)
            res = extract(kbs, case["entry"], fail=op["fails"])
            out.append(copy.deepcopy(res))
            if "ok" in res:
                spoil(res["ok"])
            for kind, world in worlds.items():
                changed = world.intact()
                if changed is not None:
                    return {"out": out, "changed": "%s %s" % (kind, changed)}
            if kbs != before or any(kbs[k] is not before[k] for k in before) or kbs.keys() != before.keys():
                return {"out": out, "changed": "override_kbs_files"}
            for k, v in BASE.items():
                if v != PRISTINE[k]:
                    return {"out": out, "changed": k}
        return {"out": out, "changed": None}
    finally:
        for world in worlds.values():
            world.close()


def fresh(case):
    """The result for some contents in a process that did nothing else."""
    kbs = dict(BASE)
    for kind, content in zip(case["kinds"], case["contents"]):
        if content == "default":
            del kbs[kind]
        else:
            kbs[kind] = as_form(kind, forms(kind)[0], CONTENTS[kind][content])
    return extract(kbs, case["entry"], fail=case["fail"])


def freeze(res):
    """A failure counts as a failure, whatever its text."""
    if "ok" in res:
        return {"ok": res["ok"]}
    return {"exc": res["exc"]}
