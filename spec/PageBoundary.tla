---------------------------- MODULE PageBoundary ----------------------------
(***************************************************************************)
(* Page breaks, repeated headers and repeated footers of a document.       *)
(*                                                                         *)
(* A document is fed page by page; every page ends with a page break.      *)
(* Then header lines are counted one by one as long as the pages agree,    *)
(* then footer lines, and finally all of them are removed at once.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Text

CONSTANTS
  Pages,      \* set of pages: sequences of lines
  MinPages, MaxPages,
  FirstPage,  \* the lines before the first page break
  LastLines   \* the lines after the last page break

(* TLC: text of a page break is a form feed *)
(* a line: [words, text]; a blank line has no words and blank text *)
Break == [words |-> <<>>, text |-> "\f"]

VARIABLES doc, pages, phase, heads, feet, kept,
  B   \* positions of the page breaks
vars == <<doc, pages, phase, heads, feet, kept, B>>

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsNumber(w) == \A i \in 1..Len(w) : Char(w, i) \in Digits
LowerOf == [c \in {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "L", "M", "N", "O", "P", "R", "S", "T", "U"} |->
   CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d" [] c = "E" -> "e" [] c = "F" -> "f"
     [] c = "G" -> "g" [] c = "H" -> "h" [] c = "I" -> "i" [] c = "J" -> "j" [] c = "L" -> "l" [] c = "M" -> "m"
     [] c = "N" -> "n" [] c = "O" -> "o" [] c = "P" -> "p" [] c = "R" -> "r" [] c = "S" -> "s" [] c = "T" -> "t"
     [] c = "U" -> "u"]
LC(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c
Alike(v, w) == \/ IsNumber(v) /\ IsNumber(w)
               \/ /\ LC(FirstChar(v)) = LC(FirstChar(w))
                  /\ LC(LastChar(v)) = LC(LastChar(w))
IsBlankLine(l) == IsBlank(l.text)
(* do two lines agree enough to be the same header or footer? *)
Similar(a, b) ==
  IF IsBlankLine(a) THEN b.words = <<>>
  ELSE /\ b.words # <<>> /\ Len(a.words) = Len(b.words)
       /\ 10 * Cardinality({i \in DOMAIN a.words : Alike(a.words[i], b.words[i])}) >= 9 * Len(a.words)

IsBreak(l) == IsBlank(l.text) /\ HasSub(l.text, "\f")
Breaks(d) == SelectSeq([i \in DOMAIN d |-> i], LAMBDA i : IsBreak(d[i]))
N == Len(B)

Init == doc = FirstPage \o <<Break>> /\ pages = 1 /\ phase = "feed" /\ heads = 0 /\ feet = 0 /\ kept = <<>> /\ B = <<>>

Feed(p) == /\ phase = "feed" /\ pages < MaxPages
           /\ doc' = doc \o p \o <<Break>> /\ pages' = pages + 1
           /\ UNCHANGED <<phase, heads, feet, kept, B>>
Close == /\ phase = "feed" /\ pages >= MinPages
         /\ doc' = doc \o LastLines /\ phase' = "heads" /\ B' = Breaks(doc \o LastLines)
         /\ UNCHANGED <<pages, heads, feet, kept>>

(* headers are judged by the pages after the second break: all of them, or every *)
(* second one if there are more than four breaks                                 *)
Judging == LET step == IF N > 4 THEN 2 ELSE 1
           IN {c \in 3..(N - 1) : (c - 2) % step = 0}
MoreHead ==
  LET base == B[2] + heads + 1
  IN /\ N > 3 /\ base < B[3]
     /\ \A c \in Judging : B[c] + heads + 1 <= Len(doc) /\ Similar(doc[base], doc[B[c] + heads + 1])
(* footers are judged by all pages after the first *)
MoreFoot ==
  LET base == B[2] - feet - 1
  IN /\ N > 2 /\ base >= 1
     /\ \A c \in 3..N : Similar(doc[base], doc[B[c] - feet - 1])

CountHead == /\ phase = "heads" /\ MoreHead
             /\ heads' = heads + 1 /\ UNCHANGED <<doc, pages, phase, feet, kept, B>>
HeadsDone == /\ phase = "heads" /\ ~MoreHead
             /\ phase' = "feet" /\ UNCHANGED <<doc, pages, heads, feet, kept, B>>
CountFoot == /\ phase = "feet" /\ MoreFoot
             /\ feet' = feet + 1 /\ UNCHANGED <<doc, pages, phase, heads, kept, B>>
FeetDone == /\ phase = "feet" /\ ~MoreFoot
            /\ phase' = "strip" /\ UNCHANGED <<doc, pages, heads, feet, kept, B>>

(* pages that hold more than header and footer *)
Roomy == N > 1 /\ \A c \in 1..(N - 1) : B[c + 1] - B[c] - 1 > heads + feet
HasText == \E i \in DOMAIN doc : ~IsBlankLine(doc[i])
Removed ==
  IF ~Roomy \/ ~HasText THEN {}
  ELSE {B[c] : c \in 1..N}
       \cup UNION {(B[c] + 1)..(B[c] + heads) : c \in 1..(N - 1)}
       \cup UNION {(B[c] - feet)..(B[c] - 1) : c \in 2..N}
Strip1 == /\ phase = "strip"
          /\ kept' = SelectSeq([i \in DOMAIN doc |-> i], LAMBDA i : i \notin Removed)
          /\ phase' = "done" /\ UNCHANGED <<doc, pages, heads, feet, B>>

Next == (\E p \in Pages : Feed(p)) \/ Close \/ CountHead \/ HeadsDone \/ CountFoot \/ FeetDone \/ Strip1
LongNext == \/ (\E p \in Pages : Feed(p)) \/ (pages = MaxPages /\ Close)
            \/ CountHead \/ HeadsDone \/ CountFoot \/ FeetDone \/ Strip1

(* ------------------------------------------------------------ properties *)
(* all lines of the first page, and all between header and footer of the others, are kept *)
BodiesKept ==
  phase = "done" =>
    /\ \A i \in 1..(B[1] - 1) : \E k \in DOMAIN kept : kept[k] = i
    /\ \A c \in 1..(N - 1) : \A i \in (B[c] + heads + 1)..(B[c + 1] - feet - 1) : \E k \in DOMAIN kept : kept[k] = i
    /\ \A i \in (B[N] + 1)..Len(doc) : \E k \in DOMAIN kept : kept[k] = i
(* the lines that were removed agree on the pages that are judged *)
RemovedAgree ==
  (phase = "done" /\ Roomy /\ HasText) =>
    /\ \A k \in 1..heads : \A c \in Judging : Similar(doc[B[2] + k], doc[B[c] + k])
    /\ \A k \in 1..feet : \A c \in 3..N : Similar(doc[B[2] - k], doc[B[c] - k])
InOrder == phase = "done" => \A k \in 1..(Len(kept) - 1) : kept[k] < kept[k + 1]
AllOrNothing == phase = "done" => (Len(kept) = Len(doc) \/ \A c \in 1..N : \A k \in DOMAIN kept : kept[k] # B[c])

Emit == phase = "done" =>
  PrintT("@@" \o ToJson([lines |-> [i \in DOMAIN doc |-> doc[i].text], kept |-> [k \in DOMAIN kept |-> kept[k]],
                         heads |-> heads, feet |-> feet]))
=============================================================================
