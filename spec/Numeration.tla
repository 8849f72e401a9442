------------------------------ MODULE Numeration ------------------------------
(***************************************************************************)
(* A citation of a journal, written in one of the notations in use, and    *)
(* the journal reference reported for it.                                  *)
(*                                                                         *)
(* A citation (title, series letter, volume, year, page) is written        *)
(* element by element in one of the orders, every element in one of its    *)
(* styles, with one of the separators before it.  What is reported         *)
(* (Report) is a function of the citation alone: the notation must not     *)
(* matter.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Text

CONSTANTS
  Cits,      \* records [title, names, letter, inname, vol, roman, year, page, end, special]
  Orders,    \* sequences over {"title", "vol", "year", "page"}
  VolStyles, YearStyles, PageStyles, LetterStyles,
  Seps,      \* separators between elements
  TitleSeps, \* separators between the title and what follows
  Fronts, Backs  \* text around the citation: records [t, misc]

VARIABLES phase, cit, order, front, text, styles, report
vars == <<phase, cit, order, front, text, styles, report>>

None == [title |-> "", names |-> {}, letter |-> "", inname |-> "", vol |-> "", roman |-> "", year |-> "", page |-> "",
         end |-> "", special |-> FALSE]

(* the letter stands in the title ("Phys. Rev. D 50") or with the volume    *)
Names(c) == c.names
Arabic(c) == c.vol
Written(c, roman) == IF roman THEN c.roman ELSE c.vol

(* -------------------------------------------------------------- styles *)
WithLetter(c, st, v) ==
  CASE c.letter = "" -> v
    [] st = "D50" -> c.letter \o v
    [] st = "D 50" -> c.letter \o " " \o v
    [] st = "D, 50" -> c.letter \o ", " \o v
    [] st = "D:50" -> c.letter \o ":" \o v
    [] st = "D-50" -> c.letter \o "-" \o v
    [] st = "50D" -> v \o c.letter
    [] st = "50 D" -> v \o " " \o c.letter
    [] st = "50, D" -> v \o ", " \o c.letter
VolText(c, vs, ls) ==
  LET v == WithLetter(c, ls, IF vs = "roman" THEN c.roman ELSE c.vol)
  IN CASE vs = "50" -> v
       [] vs = "roman" -> v
       [] vs = "vol. 50" -> "vol. " \o v
       [] vs = "Vol. 50" -> "Vol. " \o v
       [] vs = "Vol.50" -> "Vol." \o v
       [] vs = "v50" -> "v" \o v
       [] vs = "No. 50" -> "No. " \o v
       [] vs = "50(3)" -> v \o "(3)"
       [] vs = "50 (3)" -> v \o " (3)"
       [] vs = "50 (3-4)" -> v \o " (3-4)"
       [] vs = "50, No. 3" -> v \o ", No. 3"
       [] vs = "50 no 12" -> v \o " no 12"
       [] vs = "50-51" -> v \o "-99"
       [] vs = "50 [FS3]" -> v \o " [FS3]"
       [] vs = "[FS3] 50" -> "[FS3] " \o v
       [] vs = "50 (PM)" -> v \o " (PM)"
YearText(c, ys) ==
  CASE ys = "(1994)" -> "(" \o c.year \o ")"
    [] ys = "1994" -> c.year
    [] ys = "(1994a)" -> "(" \o c.year \o "a)"
    [] ys = "(July 1994)" -> "(July " \o c.year \o ")"
    [] ys = "(Jul., 1994)" -> "(Jul., " \o c.year \o ")"
    [] ys = "May 1994" -> "May " \o c.year
PageText(c, ps) ==
  LET e == IF c.end = "" THEN "" ELSE "-" \o c.end
  IN CASE ps = "123" -> c.page \o e
       [] ps = "p123" -> "p" \o c.page \o e
       [] ps = "p.123" -> "p." \o c.page \o e
       [] ps = "p. 123" -> "p. " \o c.page \o e
       [] ps = "pp. 123" -> "pp. " \o c.page \o e
       [] ps = "Pp.123" -> "Pp." \o c.page \o e
       [] ps = "123 - 130" -> IF e = "" THEN c.page ELSE c.page \o " - " \o c.end
       [] ps = "123 -130" -> IF e = "" THEN c.page ELSE c.page \o " -" \o c.end

Plain(t) == FirstChar(t) # "(" /\ FirstChar(t) # "["
(* where nothing separates two elements a parenthesis has to                *)
SepOk(s, before, t) == s = "" => (FirstChar(t) = "(" \/ LastChar(before) = ")")

(* Ranges of volumes are told from pages only where page and year follow;   *)
(* issue numbers and subtitles are known where volume and year follow the   *)
(* title.                                                                   *)
Pos(e) == IF \E i \in DOMAIN order : order[i] = e THEN CHOOSE i \in DOMAIN order : order[i] = e ELSE 0
StyleOk(c, vs, ls) ==
  /\ vs = "roman" => (c.roman # "" /\ c.letter = "")
  /\ vs = "50-51" => (Pos("year") = 4 /\ ls # "50D")
  /\ ls \in {"50 D", "50, D"} => (vs \in {"50", "vol. 50"} /\ Pos("year") > Pos("vol"))
  /\ vs \in {"50, No. 3", "50 no 12", "50 [FS3]", "[FS3] 50", "50 (PM)"} => Pos("year") > Pos("vol")

Elements(c, e) ==
  CASE e = "title" -> {[k |-> "title", t |-> n] : n \in c.names}
    [] e = "vol" -> {[k |-> "vol", t |-> VolText(c, x[1], x[2])] :
                       x \in {y \in VolStyles \X (IF c.letter = "" THEN {"D50"} ELSE LetterStyles) :
                                StyleOk(c, y[1], y[2])}}
    [] e = "year" -> {[k |-> "year", t |-> YearText(c, ys)] : ys \in YearStyles}
    [] e = "page" -> {[k |-> "page", t |-> PageText(c, ps)] : ps \in PageStyles}

Write(e, s) ==
  /\ phase = "write" /\ styles # order
  /\ e.k = order[Len(styles) + 1]
  /\ \/ styles = <<>> /\ s = ""
     \/ styles # <<>> /\ s \in (IF order[Len(styles)] = "title" THEN TitleSeps ELSE Seps) /\ SepOk(s, text, e.t)
  /\ text' = text \o s \o e.t
  /\ styles' = Append(styles, e.k)
  /\ UNCHANGED <<phase, cit, order, front, report>>

(* ----------------------------------------------------- what is reported *)
TwoDigits(v) == IF Len(v) = 1 THEN "0" \o v ELSE v
ThreeDigits(p) == IF Len(p) = 1 THEN "00" \o p ELSE IF Len(p) = 2 THEN "0" \o p ELSE p
HasYear == \E i \in DOMAIN order : order[i] = "year"
Volume(c) == IF c.special /\ Len(c.vol) <= 2 /\ c.letter = "" /\ c.inname = ""
             THEN (IF HasYear THEN SubSeq(c.year, 3, 4) ELSE "") \o TwoDigits(c.vol)
             ELSE c.inname \o c.letter \o c.vol
Page(c) == IF c.special /\ c.end = "" THEN ThreeDigits(c.page) ELSE IF c.end = "" THEN c.page ELSE c.page \o "-" \o c.end
(* a journal counted by year without a year, whose page could be a year, is *)
(* not taken for a citation: it stays text, with that year                  *)
AsText(c) == /\ c.special /\ ~HasYear /\ Len(c.vol) <= 2 /\ c.letter = "" /\ c.inname = "" /\ c.end = ""
             /\ Len(c.page) = 4 /\ SubSeq(c.page, 1, 2) \in {"19", "20"}
Report(b) ==
  /\ phase = "write" /\ styles = order
  /\ phase' = "done"
  /\ text' = text \o b.t
  /\ report' = IF AsText(cit)
               THEN [title |-> "", volume |-> "", year |-> cit.page, page |-> "",
                     misc |-> SelectSeq(<<front.t \o cit.title \o "," \o cit.vol, b.misc>>, LAMBDA m : m # "")]
               ELSE [title |-> cit.title, volume |-> Volume(cit), year |-> IF HasYear THEN cit.year ELSE "", page |-> Page(cit),
                misc |-> SelectSeq(<<front.misc, b.misc>>, LAMBDA m : m # "")]
  /\ UNCHANGED <<cit, order, front, styles>>

Init == /\ phase = "write" /\ cit \in Cits /\ order \in Orders /\ front \in Fronts
        /\ text = front.t /\ styles = <<>> /\ report = <<>>
Next == IF phase = "write" /\ Len(styles) < Len(order)
            THEN \E e \in Elements(cit, order[Len(styles) + 1]), s \in Seps \cup TitleSeps \cup {""} : Write(e, s)
            ELSE \E b \in Backs : Report(b)

(* ----------------------------------------------------------- properties *)
AllDigits(v) == \A i \in 1..Len(v) : Char(v, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LetterFirst == (phase = "done" /\ report.title # "") =>
  (cit.inname \o cit.letter # "" => FirstChar(report.volume) = cit.inname \o cit.letter)
ArabicVolume == (phase = "done" /\ report.title # "") => AllDigits(SubSeq(report.volume, Len(cit.inname \o cit.letter) + 1, Len(report.volume)))
YearCounted == (phase = "done" /\ cit.special /\ Len(cit.vol) <= 2 /\ HasYear) => Len(report.volume) = 4
Emit == phase = "done" => PrintT("@@" \o ToJson([line |-> "[1] " \o text, report |-> report, order |-> order]))
=============================================================================
