"""A small PDF writer: pages of positioned text, named destinations, links."""


def esc(text):
    return text.replace("\\", "\\\\").replace("(", "\\(").replace(")", "\\)")


class Pdf:
    """pages: list of {"text": [(x, y, string)], "links": [(x0, y0, x1, y1, uri or raw dictionary)]}
    dests: list of (name, page number from 0, x, y) or (name, raw object text)
    """

    def __init__(self, pages, dests=(), dest_style="names", version="1.4", size=(612, 792)):
        self.pages, self.dests, self.style, self.version, self.size = pages, list(dests), dest_style, version, size
        self.objects = []

    def add(self, body):
        self.objects.append(body if isinstance(body, bytes) else body.encode("latin-1"))
        return len(self.objects)

    def name_object(self, name):
        return "(%s)" % esc(name) if isinstance(name, str) else "<%s>" % name.hex()

    def dest_array(self, d, page_ids):
        if len(d) == 2:
            return d[1] % {"p%d" % i: "%d 0 R" % n for i, n in enumerate(page_ids)} if "%(" in d[1] else d[1]
        name, page, x, y = d
        return "[%d 0 R /XYZ %s %s 0]" % (page_ids[page], "null" if x is None else x, "null" if y is None else y)

    def render(self):
        font = self.add("<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /Encoding /WinAnsiEncoding >>")
        n = len(self.pages)
        page_ids = list(range(len(self.objects) + n + 1, len(self.objects) + 2 * n + 1))
        contents = []
        for p in self.pages:
            ops = ["BT /F1 10 Tf"]
            for x, y, s in p.get("text", ()):
                ops.append("1 0 0 1 %s %s Tm (%s) Tj" % (x, y, esc(s)))
            ops.append("ET")
            body = "\n".join(ops).encode("latin-1")
            contents.append(self.add(b"<< /Length %d >>\nstream\n" % len(body) + body + b"\nendstream"))
        parent = page_ids[-1] + 1 if page_ids else len(self.objects) + 1
        annots_at = parent + 1
        later = []
        for p, c in zip(self.pages, contents):
            refs = []
            for link in p.get("links", ()):
                if isinstance(link, str):
                    body = link
                else:
                    x0, y0, x1, y1, uri = link
                    body = ("<< /Type /Annot /Subtype /Link /Rect [%s %s %s %s] /Border [0 0 0] /A << /S /URI /URI (%s) >> >>"
                            % (x0, y0, x1, y1, esc(uri)))
                later.append(body)
                refs.append("%d 0 R" % (annots_at + len(later) - 1))
            extra = "/Annots [%s]" % " ".join(refs) if refs else ""
            extra += p.get("extra", "")
            self.add("<< /Type /Page /Parent %d 0 R /MediaBox [0 0 %d %d] /Contents %d 0 R /Resources << /Font << /F1 %d 0 R >> >> %s >>"
                     % (parent, self.size[0], self.size[1], c, font, extra))
        got = self.add("<< /Type /Pages /Kids [%s] /Count %d >>" % (" ".join("%d 0 R" % i for i in page_ids), n))
        assert got == parent, (got, parent)
        for body in later:
            self.add(body)
        catalog = "<< /Type /Catalog /Pages %d 0 R" % parent
        if self.dests:
            if self.style == "names":
                rows = sorted(self.dests, key=lambda d: d[0] if isinstance(d[0], bytes) else d[0].encode("latin-1"))
                ids = [self.add("<< /D %s >>" % self.dest_array(d, page_ids)) for d in rows]
                leaf = self.add("<< /Limits [%s %s] /Names [%s] >>" % (
                    self.name_object(rows[0][0]), self.name_object(rows[-1][0]),
                    " ".join("%s %d 0 R" % (self.name_object(d[0]), i) for d, i in zip(rows, ids))))
                tree = self.add("<< /Kids [%d 0 R] >>" % leaf)
                names = self.add("<< /Dests %d 0 R >>" % tree)
                catalog += " /Names %d 0 R" % names
            elif self.style == "flat":     # names without kids, arrays directly
                rows = sorted(self.dests, key=lambda d: d[0])
                tree = self.add("<< /Names [%s] >>" % " ".join(
                    "%s %s" % (self.name_object(d[0]), self.dest_array(d, page_ids)) for d in rows))
                names = self.add("<< /Dests %d 0 R >>" % tree)
                catalog += " /Names %d 0 R" % names
            elif self.style == "old":      # PDF 1.1 dictionary of names
                rows = self.dests
                d = self.add("<< %s >>" % " ".join("/%s %s" % (r[0], self.dest_array(r, page_ids)) for r in rows))
                catalog += " /Dests %d 0 R" % d
        root = self.add(catalog + " >>")
        out = b"%PDF-" + self.version.encode() + b"\n%\xe2\xe3\xcf\xd3\n"
        offsets = []
        for i, body in enumerate(self.objects, 1):
            offsets.append(len(out))
            out += b"%d 0 obj\n" % i + body + b"\nendobj\n"
        xref = len(out)
        out += b"xref\n0 %d\n0000000000 65535 f \n" % (len(self.objects) + 1)
        for o in offsets:
            out += b"%010d 00000 n \n" % o
        out += b"trailer\n<< /Size %d /Root %d 0 R >>\nstartxref\n%d\n%%%%EOF\n" % (len(self.objects) + 1, root, xref)
        return out


def simple(lines, size=(612, 792), step=14, top=740, left=60):
    """One page with lines from top to bottom."""
    return Pdf([{"text": [(left, top - step * i, s) for i, s in enumerate(lines)]}], size=size)
