------------------------------- MODULE Linker -------------------------------
(***************************************************************************)
(* A line (RefLine) whose elements are looked up with a callback.           *)
(*                                                                         *)
(* The callback is asked about every element when the line has been read   *)
(* (round 1) and about every element of every citation when ibids, years   *)
(* and books are known (round 2).  It answers with a record id, with       *)
(* nothing, or with an error.  The record of a citation gets the id given  *)
(* for its first element for which there is one in the last round.         *)
(***************************************************************************)
EXTENDS RefLine

CONSTANT Behaviours   \* records: kind of element -> <<first answer, later answers>>
VARIABLES beh, recid, asked, failed
lvars == <<phase, line, misc, prev, split, cits, tail, records, beh, recid, asked, failed>>

Asked == {"AUTH", "COLLABORATION", "QUOTED", "JOURNAL", "ARXIV", "REPORTNUMBER", "DOI", "URL", "HDL", "ISBN",
          "PUBLISHER", "BOOK"}
Key(e) == IF e.type = "JOURNAL" THEN e.title \o "/" \o e.vol \o "/" \o e.year \o "/" \o e.page ELSE e.v
(* what was found after reading is asked about once, other elements at      *)
(* least twice                                                              *)
Once(e) == e.id = 0
Answer(e) == IF e.type \notin Asked THEN "none" ELSE beh[e.type][IF Once(e) THEN 1 ELSE 2]
Fatal == {"ValueError", "RuntimeError"}
Id(e) == "r:" \o e.type \o ":" \o Key(e)

Recid(cit) == LET is == {i \in DOMAIN cit : Answer(cit[i]) = "id"}
              IN IF is = {} THEN "" ELSE Id(cit[CHOOSE i \in is : \A j \in is : i <= j])
Elements == UNION {Range(cits[i]) : i \in DOMAIN cits}
AskedAbout == {e \in Elements : e.type \in Asked}
(* the answers of a behaviour contain one kind of error only                *)
Error == LET es == {a \in Fatal : \E e \in AskedAbout : (~Once(e) /\ beh[e.type][1] = a) \/ Answer(e) = a}
         IN IF es = {} THEN "" ELSE CHOOSE a \in es : TRUE

LInit == Init /\ beh \in Behaviours /\ recid = <<>> /\ asked = {} /\ failed = ""
Link == /\ Dedupe                       \* surplus elements have been asked about before
        /\ recid' = [i \in DOMAIN cits |-> Recid(cits[i])]
        /\ asked' = {Id(e) : e \in AskedAbout}
        /\ failed' = Error
        /\ UNCHANGED beh
Same == UNCHANGED <<beh, recid, asked, failed>>
LNext == \/ (\E p \in Pieces, s \in Seps \cup Leads : p \notin {line[i].p : i \in DOMAIN line} /\ Read(p, s) /\ Same)
         \/ (\E t \in Tails : Close(t) /\ Same) \/ (Ibids /\ Same) \/ (Years /\ Same) \/ (Books /\ Same) \/ Link
LLong == \/ (\E p \in Pieces, s \in Seps \cup Leads : p \notin {line[i].p : i \in DOMAIN line} /\ Read(p, s) /\ Same)
         \/ (Len(line) = MaxPieces /\ \E t \in Tails : Close(t) /\ Same) \/ (Ibids /\ Same) \/ (Years /\ Same) \/ (Books /\ Same) \/ Link

(* ----------------------------------------------------------- properties *)
RecidIsAnAnswer == phase = "done" => \A i \in DOMAIN recid : recid[i] # "" => recid[i] \in asked
NoIdWithoutAnswer == (phase = "done" /\ \A k \in Asked : "id" \notin {beh[k][1], beh[k][2]}) =>
  \A i \in DOMAIN recid : recid[i] = ""
LEmit == phase = "done" =>
  PrintT("@@" \o ToJson([line |-> Marker \o LineText, records |-> records, recid |-> recid, asked |-> asked, failed |-> failed, beh |-> beh]))
=============================================================================
