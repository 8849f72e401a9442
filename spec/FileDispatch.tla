---------------------------- MODULE FileDispatch ----------------------------
(***************************************************************************)
(* What happens with a path: it is refused if it is not a file, refused as  *)
(* a document if its content is neither plain text nor a PDF, and otherwise *)
(* read.  A text document is its lines, whatever the encoding, line ends    *)
(* and name; a PDF is its lines in the order of the content stream, or in   *)
(* the order they have on the page when no references are found in the      *)
(* former.                                                                  *)
(*                                                                          *)
(* Lines are symbols: "title" (of the reference section), numbers (a line   *)
(* "[n] ..."), and texts (a string starting with "t").                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Paths,       \* kinds of paths: "file", "link" (to a file) and those that are no files
  Places,      \* names and ways to name the file
  Contents,    \* "text", "pdf", "damaged", and those that are neither
  Ways,        \* text: [enc, eol, final]; PDF: the way it is written
  Lines,       \* symbols to write documents with
  MaxLines,
  Shuffles     \* orders of the lines on the page: "same", "reversed", "rotated", "swapped"

VARIABLES path, place, content, way, lines, shuffle, phase
vars == <<path, place, content, way, lines, shuffle, phase>>

Init == path = "" /\ place = "" /\ content = "" /\ way = "" /\ lines = <<>> /\ shuffle = "" /\ phase = "path"

IsFile(p) == p \in {"file", "link"}
ChoosePath(p, q) ==
  /\ phase = "path" /\ path' = p /\ place' = q
  /\ phase' = IF IsFile(p) THEN "content" ELSE "done"
  /\ UNCHANGED <<content, way, lines, shuffle>>
Readable(c) == c \in {"text", "pdf", "damaged"}
ChooseContent(c, w) ==
  /\ phase = "content" /\ content' = c /\ w[1] = (IF c = "damaged" THEN "pdf" ELSE c)
  /\ way' = w[2]
  /\ phase' = IF Readable(c) THEN "lines" ELSE "done"
  /\ UNCHANGED <<path, place, lines, shuffle>>
AddLine(l) ==
  /\ phase = "lines" /\ Len(lines) < MaxLines
  (* numbers once each, the title once and before all numbers *)
  /\ l \notin {lines[i] : i \in {j \in 1..Len(lines) : lines[j][1] # "t"}}
  /\ l[1] = "title" => \A i \in 1..Len(lines) : lines[i][1] # "n"
  /\ lines' = Append(lines, l)
  /\ UNCHANGED <<path, place, content, way, shuffle, phase>>
Finish(s) ==
  /\ phase = "lines"
  (* some text is needed for a text document *)
  /\ Len(lines) > 0
  /\ content = "text" => s = "same"
  (* under a title the numbers start at once and stay in order *)
  /\ \A i \in 1..Len(lines) : lines[i][1] = "title" =>
        /\ s = "same" /\ i < Len(lines) /\ lines[i + 1] = <<"n", 1>>
        /\ \A j, k \in i + 1..Len(lines) : (lines[j][1] = "n" /\ lines[k][1] = "n" /\ j < k) => lines[j][2] < lines[k][2]
  /\ shuffle' = s /\ phase' = "done"
  /\ UNCHANGED <<path, place, content, way, lines>>
Next ==
  \/ \E p \in Paths, q \in Places : ChoosePath(p, q)
  \/ \E c \in Contents, w \in Ways : ChooseContent(c, w)
  \/ \E l \in Lines : AddLine(l)
  \/ \E s \in Shuffles : Finish(s)

---------------------------------------------------------------------------
(* the order on the page of what comes in another order in the stream *)
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
OnPage ==
  CASE shuffle = "reversed" -> Reverse(lines)
    [] shuffle = "rotated" /\ Len(lines) > 0 -> Tail(lines) \o <<Head(lines)>>
    [] shuffle = "swapped" /\ Len(lines) > 1 ->
         [i \in 1..Len(lines) |-> IF i = 1 THEN lines[2] ELSE IF i = 2 THEN lines[1] ELSE lines[i]]
    [] OTHER -> lines

(* the reference section of lines: after the title, or from the last line numbered 1 that is
   followed by number 2 within ten lines or stands among the last five lines *)
(* (the only page break of a PDF with one page is a line of its own) *)
Extra == IF content = "pdf" /\ way # "two pages" THEN 1 ELSE 0
Pos(q, l) == {i \in 1..Len(q) : q[i] = l}
NoTitle(q) ==
  {i \in Pos(q, <<"n", 1>>) : (Len(q) + Extra - i) < 5 \/ (\E j \in i + 1..i + 10 : j <= Len(q) /\ q[j] = <<"n", 2>>)}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Section(q) ==
  LET t == {i \in 1..Len(q) : q[i][1] = "title"}
  IN IF t # {} THEN SubSeq(q, Max(t) + 1, Len(q))
     ELSE IF NoTitle(q) # {} THEN SubSeq(q, Max(NoTitle(q)), Len(q))
     ELSE <<>>
(* references: every number in sequence starts one, all other lines continue it *)
RECURSIVE Refs(_, _, _)
Refs(q, next, out) ==
  IF q = <<>> THEN out
  ELSE IF Head(q) = <<"n", next>> THEN Refs(Tail(q), next + 1, Append(out, <<Head(q)>>))
  ELSE IF out = <<>> THEN Refs(Tail(q), next, <<<<Head(q)>>>>)
  ELSE Refs(Tail(q), next, [out EXCEPT ![Len(out)] = Append(@, Head(q))])
References(q) == Refs(Section(q), 1, <<>>)

Result == IF Section(lines) # <<>> THEN References(lines)
          ELSE IF content = "pdf" THEN References(OnPage) ELSE <<>>
Outcome ==
  IF ~IsFile(path) THEN "full text not available"
  ELSE IF ~Readable(content) THEN "unknown document type"
  ELSE IF content = "damaged" THEN "some references" ELSE "references"

TypeOK == phase \in {"path", "content", "lines", "done"}
OnlyDocumentedErrors == phase = "done" => Outcome \in {"full text not available", "unknown document type", "some references", "references"}
(* every line of the section is in exactly one reference, in order *)
RECURSIVE Flat(_)
Flat(rs) == IF rs = <<>> THEN <<>> ELSE Head(rs) \o Flat(Tail(rs))
NoLineLost == (phase = "done" /\ Section(lines) # <<>>) => Flat(Result) = Section(lines)
Emit == phase = "done" =>
  PrintT("@@" \o ToJson([path |-> path, place |-> place, content |-> content, way |-> way, lines |-> lines,
                         page |-> OnPage, fallback |-> Section(lines) = <<>>, outcome |-> Outcome, refs |-> Result]))
=============================================================================
