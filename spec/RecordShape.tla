---------------------------- MODULE RecordShape ----------------------------
(***************************************************************************)
(* What holds for the answer to any text.                                   *)
(*                                                                         *)
(* A text is written token by token: lines, each with or without a marker, *)
(* of blank tokens (any white space) and of others (pieces of citations,   *)
(* markup, punctuation, control characters, in any order).  A marker ends  *)
(* the line before it.  The answer is a sequence of records; WellFormed    *)
(* says what holds for it whatever the tokens are.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Tokens,      \* records [t: text, blank: BOOLEAN, num: may be read as a marker]
          Glues,       \* sequences of blank tokens that may stand before a token
          Markers,     \* records [t: text, sp: text after it, n: number or "" for a line without marker, i: rank]
          MaxLen,      \* tokens in a line
          MaxLines,
          Options,     \* the ways to call the extraction
          Repeats,     \* how often a line's tokens are written
          Observed     \* name of a file with recorded answers, "" when generating
VARIABLES lines, mark, toks, opt, rep, done
vars == <<lines, mark, toks, opt, rep, done>>

NoMarker == [t |-> "", sp |-> "", n |-> "", i |-> 0]
Init == /\ lines = <<>> /\ mark \in {m \in Markers : MaxLines = 1 \/ m.i = 1} /\ toks = <<>> /\ done = FALSE
        /\ opt \in Options /\ rep \in Repeats
Write(t, g) ==
            /\ ~done /\ Len(toks) < MaxLen
            /\ toks' = Append(toks \o g, t) /\ UNCHANGED <<lines, mark, opt, rep, done>>
(* a following line has a marker of its own, else it would belong to this one *)
Break(m) == /\ ~done /\ toks # <<>> /\ Len(lines) + 1 < MaxLines /\ m.n # "" /\ mark.n # ""
            /\ m.i = mark.i + 1
            /\ lines' = Append(lines, [mark |-> mark, toks |-> toks])
            /\ mark' = m /\ toks' = <<>> /\ UNCHANGED <<opt, rep, done>>
Finish == /\ ~done /\ toks # <<>> /\ (Len(lines) + 1 = MaxLines \/ MaxLines = 1)
          /\ lines' = Append(lines, [mark |-> mark, toks |-> toks])
          /\ done' = TRUE /\ UNCHANGED <<mark, toks, opt, rep>>
Next == (\E t \in Tokens, g \in Glues : Write(t, g)) \/ (\E m \in Markers : Break(m)) \/ Finish
Long == (\E t \in Tokens, g \in Glues : Write(t, g)) \/ (Len(toks) >= MaxLen /\ ((\E m \in Markers : Break(m)) \/ Finish))

(* ------------------------------------------------------- what is expected *)
Rest(l) == FlattenSeq([i \in 1..rep |-> l.toks])
All(l) == (IF l.mark.t = "" THEN <<>> ELSE <<[t |-> l.mark.t, blank |-> FALSE, num |-> TRUE],
                                                     [t |-> l.mark.sp, blank |-> TRUE, num |-> FALSE]>>) \o Rest(l)
Visible(s) == {i \in DOMAIN s : ~s[i].blank}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s).t \o Cat(Tail(s))
Text(l) == Cat(All(l))
(* the line without the white space around it                                *)
Raw(l) == LET s == All(l)
              first == CHOOSE i \in Visible(s) : \A j \in Visible(s) : i <= j
              last == CHOOSE i \in Visible(s) : \A j \in Visible(s) : i >= j
          IN IF Visible(s) = {} THEN "" ELSE Cat(SubSeq(s, first, last))
(* "any": the first token may be read as a marker                            *)
Number(l) == LET s == All(l)
                 v == Visible(s)
             IN CASE l.mark.n # "" -> l.mark.n
                  [] v = {} -> "none"
                  [] s[CHOOSE i \in v : \A j \in v : i <= j].num -> "any"
                  [] OTHER -> "none"

Emit == done => PrintT("@@" \o ToJson([lines |-> [i \in DOMAIN lines |->
            [text |-> Text(lines[i]), raw |-> Raw(lines[i]), number |-> Number(lines[i])]], opt |-> opt]))

(* every line with something to see in it is answered, no other is           *)
RawIsVisible == done => \A i \in DOMAIN lines : (Raw(lines[i]) = "") = (Visible(All(lines[i])) = {})
NumberOfMarker == done => \A i \in DOMAIN lines : lines[i].mark.n # "" => Number(lines[i]) = lines[i].mark.n

(* --------------------------------------- the recorded answers of the code *)
Fields == {"raw_ref", "linemarker", "misc", "author", "title", "journal_title", "journal_volume", "journal_year",
           "journal_page", "journal_reference", "reportnumber", "url", "urldesc", "doi", "hdl", "isbn", "publisher",
           "year", "collaboration", "recid", "texkey"}
(* the kinds of values, by the recorder: "text", "blank", "other" (not a     *)
(* string), "markup" (the tags that the passes use between them)             *)
WellFormedField(f) == /\ f.name \in Fields /\ f.kinds # <<>>
                      /\ \A k \in Range(f.kinds) : k = "text" \/ (k = "markup" /\ f.name = "raw_ref")
WellFormedRecord(r, o) ==
  /\ r.raws # <<>> /\ Len(r.raws) = 1
  /\ \A i \in DOMAIN r.fields : WellFormedField(r.fields[i])
  /\ \E i \in DOMAIN o.lines : /\ o.lines[i].raw = r.raws[1]
                               /\ o.lines[i].number \in {"any"} \/ r.number = o.lines[i].number
(* whole: the text consists of references, so each line has a record         *)
WellFormed(o) == /\ o.answer = "list"
                 /\ \A i \in DOMAIN o.records : WellFormedRecord(o.records[i], o)
                 /\ o.whole => \A i \in DOMAIN o.lines : o.lines[i].raw = "" \/
                        \E j \in DOMAIN o.records : o.records[j].raws = <<o.lines[i].raw>>
Log == IF Observed = "" THEN <<>> ELSE JsonDeserialize(Observed)
(* one step: the numbers of the answers that are not well formed are printed *)
TInit == /\ lines = <<>> /\ mark = NoMarker /\ toks = <<>> /\ opt = "" /\ rep = 1 /\ done = FALSE
TNext == ~done /\ done' = TRUE /\ UNCHANGED <<lines, mark, toks, opt, rep>>
         /\ LET log == Log IN \A i \in DOMAIN log : WellFormed(log[i]) \/ PrintT("@@" \o ToJson(i))
=============================================================================
