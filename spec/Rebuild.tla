------------------------------- MODULE Rebuild -------------------------------
(***************************************************************************)
(* Reassembly of the references of a reference section from its lines.     *)
(*                                                                         *)
(* A section is fed line by line (any sequence over the alphabet Lines up  *)
(* to MaxLen), then the way references are separated is decided (Decide),  *)
(* then the lines are consumed one by one: StartReference, Continue,       *)
(* SkipEmpty, and finally Finish.  Every finished behaviour is emitted     *)
(* with the references it gives and replayed into the implementation.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Text

CONSTANTS
  Lines,      \* alphabet: records [ind, pre, num, body]
  Styles,     \* marker styles: records [open, close, numbered]; NoStyle for none
  MaxLen,     \* longest section
  MaxRefLines \* lines a reference keeps

NoStyle == [open |-> "", close |-> "", numbered |-> FALSE, none |-> TRUE]

VARIABLES phase, style, sect, mode, pos, cur, work, out
vars == <<phase, style, sect, mode, pos, cur, work, out>>

Mark(l) == style.open \o Num(l.num) \o style.close
HasMark(l) == l.num > 0 /\ ~style.none
(* text of a line, and its two parts: before the marker / from the marker on *)
After(l) == IF HasMark(l)
            THEN Mark(l) \o (IF l.body = "" THEN "" ELSE " " \o l.body) ELSE l.body
Raw(l) == IF HasMark(l)
          THEN l.ind \o (IF l.pre = "" THEN "" ELSE l.pre \o " ") \o After(l)
          ELSE l.ind \o l.pre \o l.body
Blank(l) == IsBlank(Raw(l))

(* how the references of the section are separated *)
RECURSIVE Blocks(_, _)
Blocks(s, i) ==   \* sequence of maximal runs: TRUE for a run of blank lines
  IF i > Len(s) THEN <<>>
  ELSE LET b == Blank(s[i])
           rest == Blocks(s, i + 1)
       IN IF i < Len(s) /\ Blank(s[i + 1]) = b THEN rest ELSE <<b>> \o rest
BlankSeparated(s) ==
  LET bs == Blocks(s, 1)
      texts == Cardinality({i \in DOMAIN bs : ~bs[i]})
      blanks == Cardinality({i \in DOMAIN bs : bs[i] /\ i < Len(bs)})
      several == \E i \in 1..(Len(s) - 1) : ~Blank(s[i]) /\ ~Blank(s[i + 1])
  IN texts > 3 /\ blanks \in {texts - 1, texts} /\ several

Lower == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p",
          "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
StartsLower(t) == FirstChar(Strip(t)) \in Lower
Continues(t) == LastChar(Strip(t)) \in {",", "&", "-"}

(* does the line start a new reference? *)
Starts(l) ==
  CASE mode = "number" -> HasMark(l) /\ l.num = cur + 1
    [] mode = "label"  -> HasMark(l)
    [] mode = "blank"  -> Blank(l)
    [] mode = "indent" -> /\ ~Blank(l) /\ l.ind = ""
                          /\ ~StartsLower(Raw(l))
                          /\ ~(work # <<>> /\ Continues(work[Len(work)]))
    [] OTHER -> FALSE

(* text of a reference made of the given lines *)
Join(a, b) == IF a = "" THEN b
              ELSE IF LastChar(a) = "-" THEN DropLast(a) \o b
              ELSE IF LastChar(a) = " " THEN a \o b ELSE a \o " " \o b
RECURSIVE JoinAll(_, _)
JoinAll(acc, ls) == IF ls = <<>> THEN acc ELSE JoinAll(Join(acc, Strip(Head(ls))), Tail(ls))
RefText(ls) == RStrip(JoinAll("", SubSeq(ls, 1, IF Len(ls) < MaxRefLines THEN Len(ls) ELSE MaxRefLines)))
Refs(o) == SelectSeq([i \in DOMAIN o |-> RefText(o[i])], LAMBDA t : t # "")

NonEmpty(ss) == SelectSeq(ss, LAMBDA t : t # "")

Init == /\ phase = "feed" /\ sect = <<>> /\ style \in Styles
        /\ mode = "none" /\ pos = 0 /\ cur = 0 /\ work = <<>> /\ out = <<>>

Feed(l) == /\ phase = "feed" /\ Len(sect) < MaxLen
           /\ sect' = Append(sect, l)
           /\ UNCHANGED <<phase, style, mode, pos, cur, work, out>>

Decide == /\ phase = "feed" /\ sect # <<>>
          /\ phase' = "scan"
          /\ mode' = IF ~style.none THEN (IF style.numbered THEN "number" ELSE "label")
                     ELSE IF BlankSeparated(sect) THEN "blank" ELSE "indent"
          /\ UNCHANGED <<style, sect, pos, cur, work, out>>

Next1 == sect[pos + 1]
Scanning == phase = "scan" /\ pos < Len(sect)

(* a line that starts a reference: what precedes its marker still belongs to *)
(* the reference before                                                      *)
StartReference ==
  /\ Scanning /\ Starts(Next1)
  /\ LET before == IF HasMark(Next1) /\ Next1.pre # "" THEN Next1.ind \o Next1.pre ELSE ""
         done == NonEmpty(Append(work, before))
     IN /\ out' = IF done = <<>> THEN out ELSE Append(out, done)
        /\ work' = NonEmpty(<<IF HasMark(Next1) THEN After(Next1) ELSE Raw(Next1)>>)
  /\ cur' = IF mode = "number" THEN Next1.num ELSE cur
  /\ pos' = pos + 1
  /\ UNCHANGED <<phase, style, sect, mode>>

Continue ==
  /\ Scanning /\ ~Starts(Next1) /\ Raw(Next1) # ""
  /\ work' = Append(work, Raw(Next1))
  /\ pos' = pos + 1
  /\ UNCHANGED <<phase, style, sect, mode, cur, out>>

SkipEmpty ==
  /\ Scanning /\ ~Starts(Next1) /\ Raw(Next1) = ""
  /\ pos' = pos + 1
  /\ UNCHANGED <<phase, style, sect, mode, cur, work, out>>

Finish ==
  /\ phase = "scan" /\ pos = Len(sect)
  /\ phase' = "done"
  /\ out' = IF work = <<>> THEN out ELSE Append(out, work)
  /\ work' = <<>>
  /\ UNCHANGED <<style, sect, mode, pos, cur>>

Next == (\E l \in Lines : Feed(l)) \/ Decide \/ StartReference \/ Continue \/ SkipEmpty \/ Finish

(* for simulation: sections of full length only *)
LongNext == \/ (\E l \in Lines : Feed(l)) \/ (Len(sect) = MaxLen /\ Decide)
            \/ StartReference \/ Continue \/ SkipEmpty \/ Finish

(* ------------------------------------------------------------ properties *)
Consumed == [i \in 1..pos |-> sect[i]]
(* every line is part of exactly one reference, in order *)
Conservation ==
  phase = "done" =>
    Squeeze(ConcatAll(FlattenSeq(out))) = Squeeze(ConcatAll([i \in 1..pos |-> Raw(sect[i])]))
(* a reference that starts at a number has the next number in sequence *)
InSequence ==
  mode = "number" => /\ cur <= Cardinality({i \in 1..pos : HasMark(sect[i])})
                     /\ Len(out) <= cur + 1
                     /\ \A k \in 1..cur : \E i \in 1..pos : sect[i].num = k
NoEmptyReference == phase = "done" => \A t \in Range(Refs(out)) : t # ""
(* without truncation and hyphens the text of the references is the text of the lines *)
TextKept ==
  (phase = "done" /\ Len(sect) <= MaxRefLines
     /\ \A i \in DOMAIN sect : LastChar(Strip(Raw(sect[i]))) # "-" /\ LastChar(sect[i].pre) # "-") =>
    Squeeze(ConcatAll(Refs(out))) = Squeeze(ConcatAll([i \in DOMAIN sect |-> Raw(sect[i])]))

(* can the whole document be given to the string API: its first marker is number 1 *)
EndToEnd == style.none \/ \E i \in DOMAIN sect : HasMark(sect[i]) /\ sect[i].pre = "" /\ (sect[i].num = 1 \/ ~style.numbered)

Emit == phase = "done" =>
  PrintT("@@" \o ToJson([lines |-> [i \in DOMAIN sect |-> Raw(sect[i])],
                         style |-> style.open \o "1" \o style.close, none |-> style.none,
                         numbered |-> style.numbered, mode |-> mode, e2e |-> EndToEnd,
                         refs |-> Refs(out)]))
=============================================================================
