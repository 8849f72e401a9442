TECH["C10"] = ("TLA+ specification (Rebuild) model-checked with TLC; every behaviour replayed into the code",
  "Exhaustive for all sections over the alphabets up to the stated lengths (4-9 lines), simulation for long references; the specification's references are compared with the code's. Trusts TLC and the rendering of abstract lines to text.")
_RL = ("Exhaustive over all lines of up to 2-5 pieces from the alphabets and separators of the check, simulation for "
       "longer lines (up to 10 pieces); the records the specification gives are compared field by field with the code's. "
       "Trusts TLC, the small knowledge bases of the replay, and that the pieces represent their kinds.")
for _p in ("C11", "C12", "C13", "C14"):
    TECH[_p] = ("TLA+ specification (RefLine: reading, splitting, ibids, years, books, removal of repetitions) "
                "model-checked with TLC; every line it gives is replayed into the code", _RL)
TECH["C15"] = ("TLA+ specifications (Numeration: a citation written element by element in every supported notation; Proceedings: contributions to PoS) model-checked "
               "with TLC; every citation it writes is replayed into the code",
  "Exhaustive over the product of orders, styles, separators and values of the check; the reported journal reference and the "
  "whole record are compared with the specification's. Notations that are ambiguous by themselves are outside the domain (DESIGN.md).")
TECH["C16"] = ("TLA+ specifications (Identifiers writes every form of an identifier with its canonical form; RefLine places them in "
               "lines) model-checked with TLC; every line is replayed into the code",
  "Exhaustive over the written forms (about 1600) in all surroundings of the check, pairs and simulated longer lines; whole "
  "records are compared. Trusts the lists of archives, DOIs etc. chosen as representatives.")
TECH["C01"] = ("TLA+ specifications (KbCache: sources modified in place, cached knowledge bases, failing loads; Session: documents "
               "one after the other) model-checked with TLC; every history is replayed into the code",
  "Exhaustive over histories of 4-6 steps per kind and form of knowledge base, simulation of longer ones and of pairs of kinds; "
  "pairs and triples of documents over all entry points. The oracle is the same extraction in a new process.")
TECH["C18"] = ("TLA+ specification (Linker, on top of RefLine) model-checked with TLC; every line is replayed into the code with a "
               "callback that behaves as specified",
  "Exhaustive over lines of up to 3 pieces and the callback behaviours of the check (answers and errors per kind and round). " + _RL)
TECH["C21"] = ("TLA+ specification (ListOfLines) model-checked with TLC; every list is replayed into the code",
  "Exhaustive over lists of up to 3 lines from a pool of 20, simulation of longer lists; records and statistics are compared with "
  "those of the single lines.")
TECH["C02"] = ("TLA+ specification (Overlap: threads and nested extractions over the shared knowledge bases and their lock) model-checked "
               "with TLC; every schedule is replayed into the code with a deterministic scheduler",
  "Schedules with up to 2-4 interruptions of 2-3 threads at lines of the code (every line once, lines of the loading twice) or at "
  "callbacks, and all nestings of up to 2-4 extractions; each result is compared with the extraction alone. Interruptions inside a "
  "line are not explored.")
TECH["C20"] = ("TLA+ specifications (KbLoad: knowledge bases written entry by entry and used on references; KbNames: names of publishers and collaborations on the words of a reference; KbReports: report numbers of institutes; KbBooks: quoted books; KbOverride: which one is used) "
               "model-checked with TLC; every knowledge base is loaded by the code and used",
  "Exhaustive over knowledge bases of up to 3 entries with all references of up to 3 words, all forms and ways of writing for small ones, "
  "simulation of larger ones; all subsets of overridden kinds. Titles that overlap without one containing the other are outside.")

TECH["C04"] = ("TLA+ specification (PdfClean: files of junk, headers, end markers and content, read several times) model-checked with TLC; "
               "every file is written and read by the code and its bytes compared",
  "Exhaustive over files of up to 5-6 blocks of the check's kinds, also with markers that are cut, repeated or straddle read buffers; "
  "simulation of longer ones. Bytes of the file after reading once and twice are the oracle's.")
TECH["C07"] = ("TLA+ specification (PageBoundary: documents page by page, headers and footers counted) model-checked with TLC; every document "
               "is replayed into the code",
  "Exhaustive over documents of up to 5-7 pages from a pool of pages per run, simulation of up to 9 pages; the kept lines and the "
  "reported references are compared.")
TECH["C08"] = ("TLA+ specification (Section: documents line by line, start of the reference section) model-checked with TLC; every document is "
               "replayed into the code",
  "Exhaustive over documents of up to 4-6 lines from a pool of lines per run, simulation of longer ones; the start, its marks and the "
  "reported references are compared. Lines that are ambiguous as titles are outside (DESIGN.md).")
TECH["C09"] = ("TLA+ specification (Section: documents line by line, end of the reference section and its lines) model-checked with TLC; every "
               "document is replayed into the code",
  "Exhaustive over sections of up to 4-6 lines from a pool of lines per run, simulation of longer ones; the end of the section and the "
  "reported references are compared.")

TECH["C03"] = ("TLA+ specification (UrlFetch: temporary file, request, redirections, status, transfer part by part, storing, extraction, with a "
               "fault at any step) model-checked with TLC; every behaviour is replayed into the code against a local server that follows it",
  "Exhaustive over the behaviours per run of the check (sampled above 700 per run): every fault after every part, 15 statuses, 15 names, 4 framings, 9 documents. "
  "Faults of the file system are a missing directory and a full disk; interruptions come as signals while the code waits for the server.")
TECH["C05"] = ("TLA+ specification (FileDispatch: paths, contents, encodings, order in the stream and on the page) model-checked with TLC; every "
               "document is written and read by the code",
  "Exhaustive over kinds of paths and names, contents, and documents of up to 4-9 lines (sampled above 1500-3000 per run). What is plain text is what libmagic takes for it.")
TECH["C06"] = ("TLA+ specification (Batch: calls of the batch entry points, input by input) model-checked with TLC; every sequence of calls is "
               "replayed into the code",
  "Exhaustive over lists of up to 2 inputs from a pool of 35 (10 kinds of failures at two stages), of up to 4 from a smaller one, and pairs of calls; simulation of longer ones.")

TECH["C19"] = ("TLA+ specification (PdfLinks: keys and links placed on pages and columns, put in reading order and attached) model-checked with TLC; "
               "every document is written as a PDF and read by the code",
  "Exhaustive over small numbers of keys, links and places per run of the check (sampled above 1200 per run), simulation of 5-7 keys on up to 3 pages; 40 kinds of "
  "unusual destinations, annotations and pages. Links after the last key are only placed where it is clear whether they belong to it.")

TECH["C17"] = ("TLA+ specification (RecordShape: texts written token by token; WellFormed judges an answer) model-checked with TLC; the texts are "
               "given to the code and TLC evaluates WellFormed on the recorded answers",
  "Exhaustive over all single tokens with all markers and options, all pairs and the triples of a smaller alphabet (about 45000 texts of 190 kinds of tokens), "
  "simulation of longer lines, several lines and repetitions. Not terminating means no answer within 30 s.")
