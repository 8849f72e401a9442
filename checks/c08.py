"""C08: where the reference section starts (spec/Section.tla)."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import vt  # noqa: E402
from lib.section import BLANK, end, job, mark, run, text, title  # noqa: E402


def body(chk):
    deep = vt.tier() == "thorough"
    rng = random.Random(vt.seed())
    T, U = text("Lorem ipsum"), text("dolor sit")
    R, R7, RV = title("References", "References", 1), title("7. References", "References", 1), title("VI. REFERENCES", "REFERENCES", 1, plain=False)
    R8, B = title("8 References", "References", 2), title("Bibliography", "Bibliography", 3)
    B9, C = title("9 Bibliography", "Bibliography", 4), title("Citations.", "Citations", 5, plain=False)
    one, two, three = mark("[", 1), mark("[", 2, "Gamma"), mark("[", 3, "Delta")
    jobs = []
    # titles of all kinds, with and without numbering
    blocks = [[T], [T] * 4, [R], [R7], [R8], [B], [one], [two], [title("References ", "References", 1, "[", 1, "Eps")]]
    jobs.append(job(blocks, 5 if deep else 4, "titles"))
    blocks = [[T], [U], [R], [RV], [B], [B9], [C], [one], [title("7. References ", "References", 1, "[", 1, "Eps")],
              [title("Bibliography ", "Bibliography", 3, "[", 1, "Zeta")]]
    jobs.append(job(blocks, 4 if deep else 3, "kinds of titles", prefix=[T], suffix=[two, U, three]))
    # distance of the numbering from the title
    for s in "[(.{ " + "L":
        blocks = [[T], [U] * 2, [T] * 4, [BLANK], [title("REFERENCES", "REFERENCES", 1)], [mark(s, 1)], [mark(s, 2, "Gamma")]]
        jobs.append(job(blocks, 5 if deep else 4, "numbering " + s, prefix=[R], suffix=[]))
    # titles in other ways of writing
    words = ["R e f e r e n c e s", "(References)", "references:", "[7] References", "A. References", "7.1. References",
             "References section", "  REFERENCES", "R\u00c9F\u00c9RENCES", "Literaturverzeichnis", "Refs", "Reference", "Bibliographie"]
    for w in words:
        jobs.append(job([[T], [one], [two], [title(w, w, 1, plain=w not in ("(References)", "references:", "A. References", "7.1. References"))]], 4 if deep else 3, "title " + w, prefix=[T]))
    # no title: numbers of every style
    blocks = [[T], [U] * 3, [T] * 8, [one], [two], [mark(".", 1)], [mark(".", 2, "Gamma")], [mark("(", 1)]]
    jobs.append(job(blocks, 5 if deep else 4, "no title"))
    blocks = [[T], [U] * 4, [mark(" ", 1)], [mark(" ", 2, "Gamma")], [mark(".", 1, "Eps")], [one]]
    jobs.append(job(blocks, 5 if deep else 4, "no title, plain numbers"))
    for s in "[. ":
        jobs.append(job([[T] * 3, [U] * 4, [T] * 5, [mark(s, 1)], [mark(s, 2, "Gamma")]], 6 if deep else 5, "distances " + s))
    jobs.append(job([[T], [one], [two], [R], [end("Appendix")], [T] * 4, [mark(".", 1)], [B]], 12, "long documents",
                    next_="LongNext", simulate=3000 if deep else 200, depth=400))
    run(chk, jobs, rng, 400000 if deep else 26000, "the references do not start where the section does")


if __name__ == "__main__":
    vt.main("C08", body)
