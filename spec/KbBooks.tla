------------------------------- MODULE KbBooks -------------------------------
(***************************************************************************)
(* Knowledge bases of books: authors, title and year, written entry by      *)
(* entry, and a reference that quotes a title.  A quoted title is a book if  *)
(* it is the whole title of an entry, regardless of case; it is then        *)
(* reported with the title and the year of that entry.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS Titles,     \* sequences of words
          Years, MaxBooks, Forms, Styles

VARIABLES kb, form, phase, ref, style
vars == <<kb, form, phase, ref, style>>

Init == kb = <<>> /\ form \in Forms /\ phase = "kb" /\ ref = <<>> /\ style = ""
Add == /\ phase = "kb" /\ Len(kb) < MaxBooks
       /\ \E t \in Titles, y \in Years :
            /\ \A i \in DOMAIN kb : kb[i].title # t
            /\ kb' = Append(kb, [title |-> t, year |-> y])
       /\ UNCHANGED <<form, phase, ref, style>>
Quote == /\ phase = "kb" /\ kb # <<>> /\ phase' = "done"
         /\ ref' \in Titles /\ style' \in Styles
         /\ UNCHANGED <<kb, form>>
Next == Add \/ Quote

Found == {i \in DOMAIN kb : kb[i].title = ref}
Book == CHOOSE i \in Found : TRUE

OneBook == \A i, j \in Found : i = j
OnlyWholeTitles == (phase = "done" /\ Found # {}) => Len(kb[Book].title) = Len(ref)
Emit == phase = "done" =>
  PrintT("@@" \o ToJson([kb |-> kb, form |-> form, ref |-> ref, style |-> style, book |-> Found # {},
                         year |-> IF Found # {} THEN kb[Book].year ELSE ""]))
===============================================================================
