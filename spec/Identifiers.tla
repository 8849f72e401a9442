----------------------------- MODULE Identifiers -----------------------------
(***************************************************************************)
(* The ways in which an identifier can be written, and its canonical form.  *)
(*                                                                         *)
(* An identifier of one of the kinds is written part by part: a prefix,    *)
(* the name of the archive, a separator, the number, a version, a class.   *)
(* Its canonical form is built alongside from the parts that matter.  The  *)
(* written form and the canonical form are handed to RefLine as a piece of *)
(* a line.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Text

CONSTANTS
  Archives,   \* old archives: records [a (as written), c (canonical), short]
  OldNumbers, OldSeps, OldVersions,
  NewPrefixes, YearMonths, NewDots, NewNumbers, NewVersions, Classes,
  DoiPrefixes, Dois,        \* Dois: records [t, c]
  HdlPrefixes, Hdls,
  IsbnPrefixes, Isbns,
  Series, SeriesSeps, ReportNumbers,  \* Series: records [words, c, nums]
  Atlas, Urls, Kinds, Years5

VARIABLES kind, part, text, canon, note
vars == <<kind, part, text, canon, note>>

Init == kind \in Kinds /\ part = 0 /\ text = "" /\ canon = "" /\ note = ""
Put(t, c) == text' = text \o t /\ canon' = canon \o c /\ part' = part + 1 /\ kind' = kind

OldArxiv ==
  /\ kind = "old" /\ note' = note
  /\ \/ part = 0 /\ \E a \in Archives : Put(a.a, a.c \o "/")
     \/ part = 1 /\ \E s \in OldSeps : Put(s, "")
     \/ part = 2 /\ \E n \in OldNumbers : Put(n, n)
     \/ part = 3 /\ \E v \in OldVersions : Put(v, "")

(* numbers have five digits since 2015, four before, both in between *)
NewArxiv ==
  /\ kind = "new"
  /\ \/ part = 0 /\ \E p \in NewPrefixes : Put(p, "arXiv:") /\ note' = p
     \/ part = 1 /\ \E y \in YearMonths : Put(y, y \o ".") /\ note' = IF y \in Years5 THEN note \o "5" ELSE note \o "4"
     \/ part = 2 /\ \E d \in NewDots : (d # "." => FirstChar(note) \in {"a", "A"}) /\ Put(d, "") /\ note' = note
     \/ part = 3 /\ \E n \in NewNumbers : (Len(n) = 5 => LastChar(note) = "5") /\ Put(n, n) /\ note' = note
     \/ part = 4 /\ \E v \in NewVersions : Put(v, "") /\ note' = note
     \/ part = 5 /\ \E c \in Classes : Put(c, IF c = "" THEN "" ELSE " " \o Strip(c)) /\ note' = note

(* arXiv:9910123 [hep-ph] *)
Catchup ==
  /\ kind = "catchup"
  /\ \/ part = 0 /\ \E p \in {"arXiv:", "arxiv: ", "ARXIV "} : Put(p, "") /\ note' = ""
     \/ part = 1 /\ \E n \in OldNumbers : Put(n, "") /\ note' = n
     \/ part = 2 /\ \E a \in {"hep-ph", "hep-th", "astro-ph", "math.AG"}, b \in {" ", ""} :
                      Put(b \o "[" \o a \o "]", a \o "/" \o note) /\ note' = note

Doi ==
  /\ kind = "doi" /\ note' = note
  /\ \/ part = 0 /\ \E p \in DoiPrefixes : Put(p, "doi:")
     \/ part = 1 /\ \E d \in Dois : Put(d.t, d.c)
Hdl ==
  /\ kind = "hdl"
  /\ \/ part = 0 /\ \E p \in HdlPrefixes : Put(p, "hdl:") /\ note' = p
     \/ part = 1 /\ \E h \in Hdls : Put(h, h) /\ note' = note
Isbn ==
  /\ kind = "isbn" /\ note' = note
  /\ \/ part = 0 /\ \E p \in IsbnPrefixes : Put(p, "")
     \/ part = 1 /\ \E n \in Isbns : Put(n, n)

(* a report number: words of the series and parts of the number, with any   *)
(* of the separators between them                                           *)
RECURSIVE Join(_, _)
Join(ws, s) == IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o s \o Join(Tail(ws), s)
Report ==
  /\ kind = "report" /\ note' = note
  /\ part = 0
  /\ \E r \in Series, s1 \in SeriesSeps, s2 \in SeriesSeps, s3 \in SeriesSeps :
       \E n \in {x \in ReportNumbers : Len(x) \in r.nums} :
          /\ (Len(r.words) = 1 => s1 = "-") /\ (Len(n) = 1 => s3 = "-")
          /\ Put(Join(r.words, s1) \o s2 \o Join(n, s3), r.c \o "-" \o Join(n, "-"))
AtlasNote == kind = "atlas" /\ part = 0 /\ \E a \in Atlas : Put(a.t, a.c) /\ note' = note
Url == kind = "url" /\ part = 0 /\ \E u \in Urls : Put(u.t, u.c) /\ note' = note

Next == OldArxiv \/ NewArxiv \/ Catchup \/ Doi \/ Hdl \/ Isbn \/ Report \/ AtlasNote \/ Url

Parts == [old |-> 4, new |-> 6, catchup |-> 3, doi |-> 2, hdl |-> 2, isbn |-> 2, report |-> 1, atlas |-> 1, url |-> 1]
Done == part = Parts[kind]
KindOf == [old |-> "ARXIV", new |-> "ARXIV", catchup |-> "ARXIV", doi |-> "DOI", hdl |-> "HDL", isbn |-> "ISBN",
           report |-> "REPORTNUMBER", atlas |-> "REPORTNUMBER", url |-> "URL"]

(* the canonical form says nothing about how the identifier was written *)
NoVersion == (Done /\ kind \in {"old", "new"}) =>
  \A i \in 1..Len(canon) : Char(canon, i) = "v" => ~(i > 1 /\ Char(canon, i - 1) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"})
Shape == Done => (kind = "doi" => SubSeq(canon, 1, 7) = "doi:10.") /\ (kind = "hdl" => SubSeq(canon, 1, 4) = "hdl:")
                 /\ (kind = "new" => SubSeq(canon, 1, 6) = "arXiv:")
Emit == Done => PrintT("@@" \o ToJson([k |-> KindOf[kind], t |-> text, v |-> canon]))
=============================================================================
