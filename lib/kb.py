"""Small knowledge bases used by the replays (never the default ones unless a
check says so: they take a second to load and 40 ms per line)."""
SMALL = {
    "journals": {"PHYS REV": "Phys.Rev.", "PHYS REV D": "Phys.Rev.;D", "PHYS LETT B": "Phys.Lett.;B", "JHEP": "JHEP",
                 "NUCL PHYS": "Nucl.Phys.", "JINST": "JINST"},
    "journals_re": ["DAN---Dokl.Akad.Nauk Ser.Fiz."],
    "report-numbers": ["*****CERN*****", "<s 9999>", "CERN TH---CERN-TH"],
    "collaborations": {"ATLAS COLLABORATION": "ATLAS", "CMS COLLABORATION": "CMS"},
    "books": [("Griffiths, David", "Introduction to elementary particles", "2008")],
    "publishers": {"SPRINGER VERLAG": "Springer"},
    "special_journals": ["JHEP"],
    "authors": ["Du, X."],
}
