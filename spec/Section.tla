------------------------------- MODULE Section -------------------------------
(***************************************************************************)
(* The reference section of a document: where it starts, where it ends and *)
(* which references it holds.                                              *)
(*                                                                         *)
(* A document is fed block by block.  Then its titles are considered one   *)
(* by one from the end of the document (kind by kind), if there is none    *)
(* its numbers are, style by style, and from the start found in this way   *)
(* the section is extended line by line until it ends.  The declarative    *)
(* statements of the property are invariants of these steps.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Text

CONSTANTS
  Blocks,     \* set of sequences of lines that documents are made of
  MaxBlocks,
  Prefix, Suffix,  \* lines before and after what is fed
  TitleKinds, \* number of kinds of titles, tried in this order
  Near,       \* lines after a title in which its numbering is looked for
  Second,     \* lines in which number 2 follows number 1 without title
  LastLines,  \* number 1 needs no number 2 so close to the end
  LookAhead,  \* lines in which a number after a title continues the section
  TableRows,  \* rows that make a numeric table
  MaxRefLines

(* a line: [k, word, ord, style, num, pre, body, endlike, plain]                   *)
(*   k     "text", "title", "mark", "end", "digits", "blank"                       *)
(*   word, ord   word of a title, and its place in the order of titles             *)
(*   style, num  marker: "[", "(", "{", "." or " " and number; "L" a label         *)
(*   pre, body   text before and after the marker                                  *)
(*   plain       a title without decoration, recognised as repetition              *)
(*   endlike     the text after the marker looks like the title of a section       *)

VARIABLES doc, blocks, phase, kind, at, cand, start, style, same, count, end
vars == <<doc, blocks, phase, kind, at, cand, start, style, same, count, end>>

NoCand == [line |-> 0, style |-> "", same |-> FALSE]

MarkText(l) ==
  CASE l.style = "[" -> "[" \o Num(l.num) \o "]"
    [] l.style = "(" -> "(" \o Num(l.num) \o ")"
    [] l.style = "{" -> "{" \o Num(l.num) \o "}"
    [] l.style = "." -> Num(l.num) \o "."
    [] l.style = " " -> Num(l.num)
    [] l.style = "L" -> "[Ab" \o Num(l.num) \o "]"
    [] OTHER -> ""
HasMark(l) == l.style # ""
FromMark(l) == IF HasMark(l) THEN MarkText(l) \o (IF l.body = "" THEN "" ELSE " " \o l.body) ELSE l.body
RawText(l) == l.pre \o FromMark(l)

IsTitle(l, k) == l.k = "title" /\ l.ord = k
(* the line starts with a number of this style *)
Numbered(l, s) == l.k = "mark" /\ l.style = s

(* ------------------------------------------------------------- the start *)
(* numbering that follows the title at line i: the style, "" for none *)
Follows(i) ==
  LET js == {j \in (i + 1)..(i + Near) :
               /\ j <= Len(doc) /\ doc[j].k = "mark"
               /\ (doc[j].num = 1 \/ doc[j].style = "L")}
  IN IF HasMark(doc[i]) THEN doc[i].style
     ELSE IF js = {} THEN "" ELSE doc[CHOOSE j \in js : \A h \in js : j <= h].style

Candidate(i) == [line |-> i, style |-> Follows(i), same |-> HasMark(doc[i])]

Init == /\ doc = Prefix /\ blocks = 0 /\ phase = "feed" /\ kind = 1 /\ at = 0 /\ cand = NoCand
        /\ start = 0 /\ style = "" /\ same = FALSE /\ count = 0 /\ end = 0

Feed(b) == /\ phase = "feed" /\ blocks < MaxBlocks
           /\ doc' = doc \o b /\ blocks' = blocks + 1
           /\ UNCHANGED <<phase, kind, at, cand, start, style, same, count, end>>

StartSearch == /\ phase = "feed" /\ doc \o Suffix # <<>>
               /\ doc' = doc \o Suffix
               /\ phase' = "titles" /\ at' = Len(doc')
               /\ UNCHANGED <<blocks, kind, cand, start, style, same, count, end>>

(* a title further up replaces the one below, unless only that one is numbered *)
ConsiderTitle ==
  /\ phase = "titles" /\ at > 0 /\ IsTitle(doc[at], kind)
  /\ LET c == Candidate(at)
         better == cand.line = 0 \/ ~(cand.style # "" /\ c.style = "")
     IN /\ cand' = IF better THEN c ELSE cand
        \* the first reference stands on the line of the title: nothing can be better
        /\ at' = IF c.same THEN 0 ELSE at - 1
  /\ UNCHANGED <<doc, blocks, phase, kind, start, style, same, count, end>>

PassBy ==
  /\ phase = "titles" /\ at > 0 /\ ~IsTitle(doc[at], kind)
  /\ at' = at - 1
  /\ UNCHANGED <<doc, blocks, phase, kind, cand, start, style, same, count, end>>

Top == phase = "titles" /\ at = 0
FoundTitle == /\ Top /\ cand.line # 0
              /\ start' = cand.line /\ style' = cand.style /\ same' = cand.same
              /\ phase' = "extend" /\ at' = cand.line
              /\ UNCHANGED <<doc, blocks, kind, cand, count, end>>
NextKind == /\ Top /\ cand.line = 0 /\ kind < TitleKinds
            /\ kind' = kind + 1 /\ at' = Len(doc)
            /\ UNCHANGED <<doc, blocks, phase, cand, start, style, same, count, end>>
NoTitle == /\ Top /\ cand.line = 0 /\ kind = TitleKinds
           /\ phase' = "numbers" /\ kind' = 1 /\ at' = Len(doc)
           /\ UNCHANGED <<doc, blocks, cand, start, style, same, count, end>>

NumberStyles == <<"[", ".", " ">>
FirstNumber(i, s) ==
  /\ Numbered(doc[i], s) /\ doc[i].num = 1
  /\ \/ Len(doc) - i < LastLines
     \/ \E j \in (i + 1)..(i + Second) : j <= Len(doc) /\ Numbered(doc[j], s) /\ doc[j].num = 2
ConsiderNumber ==
  /\ phase = "numbers" /\ at > 0
  /\ IF FirstNumber(at, NumberStyles[kind])
     THEN /\ start' = at /\ style' = NumberStyles[kind] /\ phase' = "extend" /\ at' = at
     ELSE at' = at - 1 /\ UNCHANGED <<start, style, phase>>
  /\ UNCHANGED <<doc, blocks, kind, cand, same, count, end>>
NextStyle == /\ phase = "numbers" /\ at = 0 /\ kind < Len(NumberStyles)
             /\ kind' = kind + 1 /\ at' = Len(doc)
             /\ UNCHANGED <<doc, blocks, phase, cand, start, style, same, count, end>>
NoSection == /\ phase = "numbers" /\ at = 0 /\ kind = Len(NumberStyles)
             /\ phase' = "done"
             /\ UNCHANGED <<doc, blocks, kind, at, cand, start, style, same, count, end>>

(* --------------------------------------------------------------- the end *)
OwnNumber(l) == IF l.style # "" /\ l.style = style /\ style # "L" /\ (l.k = "mark" \/ (at = start /\ same))
                THEN l.num ELSE 0
Brackets == {"[", "(", "{"}
(* the line is the next reference, whatever its text looks like *)
IsNext(l) == OwnNumber(l) = count + 1 /\ style \in Brackets
LooksLikeTitle(l) == l.k = "end" \/ (l.k = "mark" /\ l.endlike)
Counted(l) == IF OwnNumber(l) # 0 THEN OwnNumber(l) ELSE count
Continued(i, c) ==
  \E j \in (i + 1)..(i + LookAhead - 1) :
    j <= Len(doc) /\ Numbered(doc[j], style) /\ (style = "L" \/ doc[j].num = c + 1)
NonBlank(i) == {j \in i..Len(doc) : doc[j].k # "blank"}
RECURSIVE Smallest(_, _)
Smallest(S, n) == IF n = 0 \/ S = {} THEN {}
                  ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN {m} \cup Smallest(S \ {m}, n - 1)
Table(i) == /\ doc[i].k = "digits"
            /\ LET rows == Smallest(NonBlank(i), TableRows)
               IN Cardinality(rows) = TableRows /\ \A j \in rows : doc[j].k = "digits"
EndsAt(i) == \/ LooksLikeTitle(doc[i]) /\ ~IsNext(doc[i]) /\ ~Continued(i, Counted(doc[i]))
             \/ Table(i)

Extend == /\ phase = "extend" /\ (IF at <= Len(doc) THEN ~EndsAt(at) ELSE FALSE)
          /\ count' = Counted(doc[at]) /\ at' = at + 1
          /\ UNCHANGED <<doc, blocks, phase, kind, cand, start, style, same, end>>
EndHere == /\ phase = "extend" /\ (IF at > Len(doc) THEN TRUE ELSE EndsAt(at))
           /\ end' = at - 1 /\ phase' = "done"
           /\ UNCHANGED <<doc, blocks, kind, at, cand, start, style, same, count>>

Next == (\E b \in Blocks : Feed(b)) \/ StartSearch \/ ConsiderTitle \/ PassBy \/ FoundTitle \/ NextKind \/ NoTitle
        \/ ConsiderNumber \/ NextStyle \/ NoSection \/ Extend \/ EndHere
(* for simulation: documents of full length *)
LongNext == \/ (\E b \in Blocks : Feed(b)) \/ (blocks = MaxBlocks /\ StartSearch)
            \/ ConsiderTitle \/ PassBy \/ FoundTitle \/ NextKind \/ NoTitle
            \/ ConsiderNumber \/ NextStyle \/ NoSection \/ Extend \/ EndHere

(* --------------------------------------------------------- the references *)
Titled == start # 0 /\ doc[start].k = "title"
Repetition(l) == Titled /\ l.k = "title" /\ ~HasMark(l) /\ l.plain /\ l.word = doc[start].word
Section ==
  LET first == IF ~Titled THEN <<doc[start]>>
               ELSE IF same THEN <<[doc[start] EXCEPT !.pre = "", !.k = "mark"]>> ELSE <<>>
      rest == SelectSeq([i \in 1..(end - start) |-> doc[start + i]], LAMBDA l : ~Repetition(l))
  IN IF start = 0 THEN <<>> ELSE IF end < start THEN <<>> ELSE first \o rest

Join(a, b) == IF a = "" THEN b
              ELSE IF LastChar(a) = "-" THEN DropLast(a) \o b
              ELSE IF LastChar(a) = " " THEN a \o b ELSE a \o " " \o b
RECURSIVE JoinAll(_, _)
JoinAll(acc, ls) == IF ls = <<>> THEN acc ELSE JoinAll(Join(acc, Strip(Head(ls))), Tail(ls))
RefText(ls) == RStrip(JoinAll("", SubSeq(ls, 1, IF Len(ls) < MaxRefLines THEN Len(ls) ELSE MaxRefLines)))

Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u",
          "v", "w", "x", "y", "z"}
(* groups of lines that make one reference each *)
RECURSIVE Group(_, _, _, _)
Group(ls, n, work, out) ==
  IF ls = <<>> THEN (IF work = <<>> THEN out ELSE Append(out, work))
  ELSE LET l == Head(ls)
           starts == IF style = "" THEN FirstChar(RawText(l)) \notin Lower \cup Blanks \cup {""}
                     ELSE HasMark(l) /\ l.style = style /\ (style = "L" \/ l.num = n + 1)
           before == IF style # "" /\ l.pre # "" THEN <<l.pre>> ELSE <<>>
       IN IF starts
          THEN Group(Tail(ls), IF style = "" THEN n ELSE l.num,
                     <<IF style = "" THEN RawText(l) ELSE FromMark(l)>>,
                     IF work \o before = <<>> THEN out ELSE Append(out, work \o before))
          ELSE Group(Tail(ls), n, Append(work, RawText(l)), out)
References == LET g == Group(Section, 0, <<>>, <<>>)
              IN SelectSeq([i \in DOMAIN g |-> RefText(g[i])], LAMBDA t : t # "")

(* ------------------------------------------------------------ properties *)
Done == phase = "done"
TitlesOf(k) == {i \in DOMAIN doc : IsTitle(doc[i], k)}
AllTitles == {i \in DOMAIN doc : doc[i].k = "title"}
(* the start as the property states it *)
StatedStart ==
  (Done /\ AllTitles # {}) =>
    LET k == CHOOSE k \in 1..TitleKinds : TitlesOf(k) # {} /\ \A h \in 1..(k - 1) : TitlesOf(h) = {}
        inline == {i \in TitlesOf(k) : HasMark(doc[i])}
        below == IF inline = {} THEN TitlesOf(k)
                 ELSE {i \in TitlesOf(k) : \A j \in inline : i >= j}
        good == {i \in below : Follows(i) # ""}
        pick == IF good # {} THEN good ELSE below
    IN start = CHOOSE i \in pick : \A j \in pick : i <= j
StatedNumberStart ==
  (Done /\ AllTitles = {} /\ start # 0) =>
    /\ doc[start].num = 1 /\ style \in {"[", ".", " "}
    /\ \A j \in (start + 1)..Len(doc) : ~FirstNumber(j, style)
NothingMissed ==
  (Done /\ start = 0) => AllTitles = {} /\ \A i \in DOMAIN doc : \A s \in {"[", ".", " "} : ~FirstNumber(i, s)
(* the section ends at the end of the document, a title or a table *)
StatedEnd ==
  (Done /\ start # 0) =>
    /\ end <= Len(doc)
    /\ end < Len(doc) => LooksLikeTitle(doc[end + 1]) \/ Table(end + 1)
    /\ \A i \in start..end : ~Table(i)
(* the next number in sequence is never left behind a title *)
NoNumberLeft ==
  (Done /\ start # 0 /\ style \in Brackets /\ end < Len(doc) /\ doc[end + 1].k = "end") =>
    \A j \in (end + 1)..(end + LookAhead) : j <= Len(doc) => ~(Numbered(doc[j], style) /\ doc[j].num = count + 1)
(* outside of what the property decides: numbers in a section that is not numbered, *)
(* numbers of another style where any number counts                                *)
InDomain ==
  /\ (AllTitles = {} /\ style \in {"", " "}) => \A i \in DOMAIN doc : doc[i].style # "."
  /\ start # 0 =>
    /\ style = "" => \A i \in start..Len(doc) : ~HasMark(doc[i])
    /\ (style = " " /\ ~Titled) => \A i \in start..Len(doc) : doc[i].style \in {"", " "}
    /\ style = "" => ~\E i \in start..Len(doc) : doc[i].k \in {"digits", "blank"}

Emit == (Done /\ InDomain) =>
  PrintT("@@" \o ToJson([lines |-> [i \in DOMAIN doc |-> RawText(doc[i])],
                         start |-> start, end |-> end, style |-> style,
                         refs |-> IF start = 0 THEN <<>> ELSE References]))
=============================================================================
