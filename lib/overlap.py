"""Overlapping extractions (spec/Overlap.tla) in the real code."""
import sys

from lib import kbhist as K, sched, vt

LINE = ("[1] K. Zed, \"A book on A\", Phys. Rev. D 50 (1994) 123, JOFA 12 (2001) 5; JOFB 13 (2002) 6, CERN-AA-1234, CERN-BB-1234, "
        "ALPHA Collaboration, Foo Verlag; BETA Collaboration, ZEIT 4 (1998) 6, DAN 3 (1999) 4, \"A book on B\"")
SHORT = "[1] K. Zed, JOFA 12 (2001) 5, CERN-BB-1234; ZEIT 4 (1998) 6, BETA Collaboration, Foo Verlag"


def all_kinds(content):
    if content == "bad":
        kbs = all_kinds("C")
        kbs["collaborations"] = BAD
        return kbs
    return {k: v[content] for k, v in K.CONTENTS.items()}


BAD = [("ALPHA", "A"), ("no pair",)]


def solo(spec):
    """Result of one extraction alone; with the lines it goes through when asked for."""
    content, line, lines = spec
    trail = []

    def note(frame, event, arg):
        if event == "line":
            trail.append((frame.f_code.co_filename[len(sched.CODE):], frame.f_lineno))
        return note
    if lines:
        K.warm(())
        sys.settrace(lambda f, e, a: note if f.f_code.co_filename.startswith(sched.CODE) else None)
    seen = []
    res = _extract(content, line, lambda el: seen.append(el["type"]))
    sys.settrace(None)
    return {"res": K.freeze(res), "trail": trail, "calls": len(seen)}


def _extract(content, line, linker):
    from refextract.references import api
    return vt.guarded(lambda: api.extract_references_from_string(line, override_kbs_files=all_kinds(content), linker_callback=linker))


def lines_job(case):
    """Threads interrupted at lines of the code."""
    K.warm(())
    if case["before"]:
        _extract(case["before"], LINE, None)

    def thread(content):
        def body(turn):
            turn.trace_lines()
            res = _extract(content, case["line"], lambda el: None)
            sys.settrace(None)
            return K.freeze(res)
        return body
    try:
        return sched.run([thread(c) for c in case["threads"]], case["schedule"])
    except sched.Deadlock as e:
        return {"deadlock": str(e)}


def calls_job(case):
    """Threads interrupted in callbacks, and callbacks that start extractions."""
    K.warm(())
    inner = []

    def extraction(turn, content, number):
        calls = [0]

        def linker(el):
            calls[0] += 1
            here = calls[0]
            for i, n in enumerate(case["nested"]):
                if n["parent"] == number and n["at"] == here and (number != 0 or n["thread"] == turn.number + 1):
                    inner.append((n["c"], extraction(turn, n["c"], i + 1)))
            if number == 0:
                turn.reached()
        return K.freeze(_extract(content, case["line"], linker))
    try:
        res = sched.run([lambda turn, c=c: extraction(turn, c, 0) for c in case["threads"]], case["schedule"])
    except sched.Deadlock as e:
        return {"deadlock": str(e)}
    return {"threads": res, "inner": inner}
