"""C09: where the reference section ends (spec/Section.tla)."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import vt  # noqa: E402
from lib.section import BLANK, digits, end, job, mark, run, text, title  # noqa: E402

TITLES = ["Appendix", "APPENDICES", "Acknowledgements", "Acknowledgment", "Table 1: Results", "Tables", "Figure captions",
          "List of figures", "Annex", "Discussion", "Remerciements", "Index", "Summary:", "Fig. 3: Spectrum", "Tab. 2: Values",
          "A. Appendix", "(B) Discussion", "V. Conclusions", "Appendix C: Proofs", "A p p e n d i x",
          "Fig 3a Spectrum", "FIG. IV Spectrum", "tab 2", "Tab. ii Values"]


def body(chk):
    deep = vt.tier() == "thorough"
    rng = random.Random(vt.seed())
    T, U = text("Lorem ipsum"), text("dolor sit")
    R = title("References", "References", 1)
    A, K = end("Appendix"), end("Acknowledgements")
    jobs = []
    for s in "[(.{ " + "L":
        m = [mark(s, 1), mark(s, 2, "Gamma"), mark(s, 3, "Delta")]
        like = mark(s, 2, "Summary talk", True) if s != "L" else mark(s, 2, "Talk")
        blocks = [[m[0]], [m[1]], [m[2]], [like], [T], [A], [K], [R], [BLANK]]
        n = 5 if s == "[" else 4
        jobs.append(job(blocks, n + 1 if deep else n, "ends " + s, prefix=[T, R]))
    # the first reference on the line of the title
    first = title("References ", "References", 1, "[", 1, "Eps")
    blocks = [[mark("[", 1)], [mark("[", 2, "Gamma")], [mark("[", 2, "Index of it", True)], [mark("[", 3, "Table of it", True)], [U], [A]]
    jobs.append(job(blocks, 5 if deep else 4, "first reference on the title line", prefix=[T, first]))
    # all titles of sections that can follow
    for t in TITLES:
        one, two = mark("[", 1), mark("[", 2, "Gamma")
        jobs.append(job([[end(t)], [two], [mark("[", 3, "Delta")], [T]], 4 if deep else 3, "title " + t, prefix=[R, one]))
    # numeric tables
    D, D2 = digits(), digits("12.5 -33.25 +417.0 10^7".replace("10^7", "44\u00d755"))
    blocks = [[mark("[", 2, "Gamma")], [T], [D], [D2], [BLANK], [D, D], [D, BLANK, D, BLANK]]
    jobs.append(job(blocks, 6 if deep else 5, "tables", prefix=[T, R, mark("[", 1)]))
    # lines that end or begin like the title of the section
    blocks = [[mark("[", 2, "Gamma")], [mark("[", 3, "Of References")], [text("and 4 References")], [text("see the References")], [text("References of it")],
              [R], [A]]
    jobs.append(job(blocks, 5 if deep else 4, "words of the title", prefix=[T, R, mark("[", 1)]))
    # sections without numbers
    blocks = [[T], [U], [A], [K], [text("Alpha beta")], [R]]
    jobs.append(job(blocks, 6 if deep else 5, "not numbered", prefix=[T, R]))
    # without a title
    blocks = [[mark("[", 2, "Gamma")], [mark("[", 3, "Discussion of it", True)], [T], [A], [D, D, D, D], [mark("[", 1, "Eps")]]
    jobs.append(job(blocks, 6 if deep else 5, "no title", prefix=[T, mark("[", 1)]))
    # far away continuations
    far = [[U] * n for n in (190, 195, 3, 1)] + [[A], [mark("[", 2, "Gamma")], [mark("[", 3, "Delta")]]
    jobs.append(job(far, 5 if deep else 4, "far continuations", prefix=[R, mark("[", 1)]))
    jobs.append(job([[mark("[", n, "Alpha")] for n in range(2, 8)] + [[T], [A], [U] * 7, [D]], 14, "long sections",
                    prefix=[T, R, mark("[", 1)], next_="LongNext", simulate=4000 if deep else 400, depth=400))
    run(chk, jobs, rng, 400000 if deep else 30000, "the references do not end where the section does")


if __name__ == "__main__":
    vt.main("C09", body)
