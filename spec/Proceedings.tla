----------------------------- MODULE Proceedings -----------------------------
(***************************************************************************)
(* A contribution to "Proceedings of Science", which counts by conference:  *)
(* its volume is the name and year of the conference.  It is written        *)
(* element by element in one of the forms in use; what is reported depends  *)
(* on the contribution alone.  Where the year of publication is not written *)
(* it is the year of the conference.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Text

CONSTANTS
  Contributions,  \* records [conf, confyear, year, page]
  Forms,          \* sequences over {"conf", "year", "page", "(conf)"}
  Titles,         \* ways of writing the title
  Inner,          \* separators between name and year of the conference
  Seps,           \* separators between elements
  Fronts, Backs   \* text around: records [t, misc]

VARIABLES phase, con, form, front, at, text, report
vars == <<phase, con, form, front, at, text, report>>

Paren(e) == e \in {"year", "(conf)"}
(* parentheses may do without a separator, but the page has to be told from *)
(* the year of a conference, and the name of a conference from a title      *)
Free(i) == \/ Paren(form[i]) /\ (i > 1 \/ form[i] = "(conf)" \/ form[i] = "year")
           \/ i > 1 /\ Paren(form[i - 1]) /\ form[i] = "page"
SepsBefore(i) == (Seps \ {""}) \cup (IF Free(i) THEN Seps \cap {""} ELSE {})

Texts(e) == CASE e = "conf" -> {con.conf \o i \o con.confyear : i \in Inner}
              [] e = "(conf)" -> {"(" \o con.conf \o i \o con.confyear \o ")" : i \in Inner}
              [] e = "year" -> {"(" \o con.year \o ")"}
              [] e = "page" -> {con.page}

Write(s, t) ==
  /\ phase = "write" /\ at < Len(form)
  /\ s \in SepsBefore(at + 1) /\ t \in Texts(form[at + 1])
  /\ text' = text \o s \o t /\ at' = at + 1
  /\ UNCHANGED <<phase, con, form, front, report>>

HasYear == \E i \in DOMAIN form : form[i] = "year"
Report(b) ==
  /\ phase = "write" /\ at = Len(form)
  /\ phase' = "done" /\ text' = text \o b.t
  /\ report' = [title |-> "PoS", volume |-> con.conf \o con.confyear,
                year |-> IF HasYear THEN con.year ELSE con.confyear, page |-> con.page,
                misc |-> SelectSeq(<<front.misc, b.misc>>, LAMBDA m : m # "")]
  /\ UNCHANGED <<con, form, front, at>>

Init == /\ phase = "write" /\ con \in Contributions /\ form \in Forms /\ front \in Fronts
        /\ \E t \in Titles : text = front.t \o t
        /\ at = 0 /\ report = <<>>
Next == \/ \E s \in Seps : at < Len(form) /\ \E t \in Texts(form[at + 1]) : Write(s, t)
        \/ \E b \in Backs : Report(b)

(* ----------------------------------------------------------- properties *)
VolumeNamesConference == phase = "done" =>
  /\ SubSeq(report.volume, 1, Len(con.conf)) = con.conf
  /\ SubSeq(report.volume, Len(con.conf) + 1, Len(report.volume)) = con.confyear
AlwaysAYear == phase = "done" => report.year # ""
Emit == phase = "done" => PrintT("@@" \o ToJson([line |-> "[1] " \o text, report |-> report, order |-> form]))
=============================================================================
