------------------------------ MODULE KbReports ------------------------------
(***************************************************************************)
(* Knowledge bases of report numbers: institutes with the categories of     *)
(* their reports and the patterns of their numbers, written line by line,   *)
(* and a reference with one report number in it.                            *)
(*                                                                         *)
(* A report number is a category of an institute followed by a number that  *)
(* has one of the patterns of that institute; longer categories and longer  *)
(* patterns come first, later institutes before earlier ones.  It is        *)
(* reported with the standard form of the category.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Text

CONSTANTS
  Categories,    \* records [words, std]
  Patterns,      \* sequences of atoms: "s", "9", "d3", "yyyy", "yy", "a", "cc" (a class)
  MaxInstitutes, MaxLines,
  Forms,
  Cats,          \* categories of references, as sequences of words
  Numbers,       \* numbers of references, as sequences of groups
  Gaps           \* what stands between the words and groups

VARIABLES kb, form, phase, ref
vars == <<kb, form, phase, ref>>
NoRef == [cat |-> <<>>, num |-> <<>>, g1 |-> "", g2 |-> "", g3 |-> ""]

Init == kb = <<>> /\ form \in Forms /\ phase = "kb" /\ ref = NoRef
Institute == /\ phase = "kb" /\ Len(kb) < MaxInstitutes
             /\ kb' = Append(kb, [cats |-> <<>>, pats |-> <<>>])
             /\ UNCHANGED <<form, phase, ref>>
Lines(k) == IF k = <<>> THEN 0 ELSE FoldSeq(LAMBDA i, n : n + Len(i.cats) + Len(i.pats), 0, k)
AddCategory == /\ phase = "kb" /\ kb # <<>> /\ Lines(kb) < MaxLines
               /\ \E c \in Categories :
                    /\ \A i \in DOMAIN kb[Len(kb)].cats : kb[Len(kb)].cats[i].words # c.words
                    /\ kb' = [kb EXCEPT ![Len(kb)].cats = Append(@, c)]
               /\ UNCHANGED <<form, phase, ref>>
AddPattern == /\ phase = "kb" /\ kb # <<>> /\ Lines(kb) < MaxLines
              /\ \E p \in Patterns :
                   /\ \A i \in DOMAIN kb[Len(kb)].pats : kb[Len(kb)].pats[i] # p
                   /\ kb' = [kb EXCEPT ![Len(kb)].pats = Append(@, p)]
              /\ UNCHANGED <<form, phase, ref>>
Use(c, n, g1, g2, g3) ==
  /\ phase = "kb" /\ kb # <<>> /\ phase' = "done"
  /\ IF Len(c) = 1 THEN g1 = " " ELSE g1 \in Gaps
  /\ IF Len(n) = 1 THEN g3 = " " ELSE g3 \in Gaps
  /\ ref' = [cat |-> c, num |-> n, g1 |-> g1, g2 |-> g2, g3 |-> g3]
  /\ UNCHANGED <<kb, form>>
Next == Institute \/ AddCategory \/ AddPattern
        \/ \E c \in Cats, n \in Numbers, g1, g3 \in Gaps \cup {" "}, g2 \in Gaps : (g1 # "" /\ g3 # "") /\ Use(c, n, g1, g2, g3)

(* --------------------------------------------------------------- meaning *)
RECURSIVE Join(_, _)
Join(ws, g) == IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o g \o Join(Tail(ws), g)
CatText == Join(ref.cat, ref.g1)
NumText == Join(ref.num, ref.g3)
(* the number as it is looked at: any punctuation is a blank *)
Seen == (IF ref.g2 = "" THEN "" ELSE " ") \o Join(ref.num, " ")

AtomText == [s |-> "s", d9 |-> "9", d3 |-> "9?9?9", yyyy |-> "yyyy", yy |-> "yy", a |-> "a", cc |-> "[0123456789]"]
RECURSIVE PatText(_)
PatText(p) == IF p = <<>> THEN "" ELSE AtomText[Head(p)] \o PatText(Tail(p))

(* a class of characters stands for one character *)
RECURSIVE PatLen(_)
PatLen(p) == IF p = <<>> THEN 0 ELSE (IF Head(p) = "cc" THEN 1 ELSE Len(AtomText[Head(p)])) + PatLen(Tail(p))

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsDigit(t, i) == i <= Len(t) /\ Char(t, i) \in Digit
IsLetter(t, i) == i <= Len(t) /\ Char(t, i) \in {"A", "B", "C"}
(* position after the match of the atoms of p from position i, 0 if there is none *)
RECURSIVE Match(_, _, _)
Match(p, t, i) ==
  IF p = <<>> THEN i
  ELSE CASE Head(p) = "s" -> IF i <= Len(t) /\ Char(t, i) = " " THEN Match(Tail(p), t, i + 1) ELSE Match(Tail(p), t, i)
         [] Head(p) \in {"d9", "cc"} -> IF IsDigit(t, i) THEN Match(Tail(p), t, i + 1) ELSE 0
         [] Head(p) = "a" -> IF IsLetter(t, i) THEN Match(Tail(p), t, i + 1) ELSE 0
         [] Head(p) = "yy" -> IF IsDigit(t, i) /\ IsDigit(t, i + 1) THEN Match(Tail(p), t, i + 2) ELSE 0
         [] Head(p) = "yyyy" -> IF i <= Len(t) /\ Char(t, i) \in {"1", "2"} /\ IsDigit(t, i + 1) /\ IsDigit(t, i + 2) /\ IsDigit(t, i + 3)
                                THEN Match(Tail(p), t, i + 4) ELSE 0
         [] Head(p) = "d3" -> LET three == IF IsDigit(t, i) /\ IsDigit(t, i + 1) /\ IsDigit(t, i + 2) THEN Match(Tail(p), t, i + 3) ELSE 0
                                  two == IF IsDigit(t, i) /\ IsDigit(t, i + 1) THEN Match(Tail(p), t, i + 2) ELSE 0
                                  one == IF IsDigit(t, i) THEN Match(Tail(p), t, i + 1) ELSE 0
                              IN IF three # 0 THEN three ELSE IF two # 0 THEN two ELSE one
(* patterns of an institute in the order they are tried *)
Before(ps, i, j) == PatLen(ps[i]) > PatLen(ps[j]) \/ (PatLen(ps[i]) = PatLen(ps[j]) /\ i < j)
MatchOf(inst) ==
  LET hits == {i \in DOMAIN inst.pats : Match(inst.pats[i], Seen, 1) # 0}
  IN IF hits = {} THEN 0 ELSE Match(inst.pats[CHOOSE i \in hits : \A j \in hits : i = j \/ Before(inst.pats, i, j)], Seen, 1)
HasCat(inst) == \E i \in DOMAIN inst.cats : inst.cats[i].words = ref.cat
StdOf(inst) == inst.cats[CHOOSE i \in DOMAIN inst.cats : inst.cats[i].words = ref.cat].std
Hits == {i \in DOMAIN kb : HasCat(kb[i]) /\ MatchOf(kb[i]) # 0}
Chosen == kb[CHOOSE i \in Hits : \A j \in Hits : j <= i]
Whole == Hits # {} => MatchOf(Chosen) = Len(Seen) + 1    \* the other ones are not decided here
(* a dash that is missing between capital letters and a number is added *)
Capitals == {"A", "B", "C", "P", "R", "S", "X", "Y", "-"}
AllIn(t, cs) == \A i \in 1..Len(t) : Char(t, i) \in cs
Dash(std) == ref.g2 # "" \/ (AllIn(std, Capitals) /\ AllIn(ConcatAll(ref.num), Digit))
Number == IF Hits = {} THEN "" ELSE StdOf(Chosen) \o (IF Dash(StdOf(Chosen)) THEN "-" ELSE "") \o Join(ref.num, "-")

(* ------------------------------------------------------------ properties *)
(* every number of one pattern is recognised when that is the only one *)
OnlyPattern == (phase = "done" /\ Len(kb) = 1 /\ Len(kb[1].pats) = 1 /\ HasCat(kb[1])) =>
                 ((Number # "") <=> (Match(kb[1].pats[1], Seen, 1) # 0))
UnknownCategory == (phase = "done" /\ \A i \in DOMAIN kb : ~HasCat(kb[i])) => Number = ""
Emit == (phase = "done" /\ Whole) =>
  PrintT("@@" \o ToJson([kb |-> [i \in DOMAIN kb |-> [cats |-> kb[i].cats, pats |-> [j \in DOMAIN kb[i].pats |-> PatText(kb[i].pats[j])]]],
                         form |-> form, text |-> CatText \o ref.g2 \o NumText, number |-> Number]))
===============================================================================
