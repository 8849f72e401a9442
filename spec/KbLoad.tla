-------------------------------- MODULE KbLoad --------------------------------
(***************************************************************************)
(* Knowledge bases of journals: written entry by entry in one of several    *)
(* forms, loaded, and used on a reference.                                  *)
(*                                                                         *)
(* A journal is known by every title that maps to it and by its standard    *)
(* name.  In a reference the longest known title is taken first, what is    *)
(* inside of it is not looked at again.  A title directly before the        *)
(* numbers (or before a series letter and the numbers) is the journal of    *)
(* the reference, any other one is only text.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Titles,       \* titles, as sequences of words (in upper case)
  Standards,    \* standard names: [name, words, series]
  Pairing,      \* titles may only go with these standard names: set of <<title, name>>, {} for all
  MaxEntries,
  Forms,        \* ways to pass the knowledge base
  KeyStyles,    \* ways to write a title in it
  Noise,        \* lines of a file that are not entries: "comment", "bad"
  MaxNoise,
  RefWords, MaxRef,   \* references are sequences of such words
  RefStyles,    \* ways to write them
  Series,       \* words that can be series letters
  WordLen       \* length of every word

VARIABLES kb, noise, form, style, ref, rstyle, phase
vars == <<kb, noise, form, style, ref, rstyle, phase>>

RECURSIVE Size(_)
Size(ws) == IF ws = <<>> THEN 0 ELSE WordLen[Head(ws)] + (IF Len(ws) > 1 THEN 1 + Size(Tail(ws)) ELSE 0)

IsFile(f) == f \in {"file", "file-spaces", "file-no-newline", "file-crlf"}

Init == /\ kb = <<>> /\ noise = <<>> /\ ref = <<>> /\ phase = "kb"
        /\ form \in Forms /\ style \in KeyStyles /\ rstyle \in RefStyles
AddEntry == /\ phase = "kb" /\ Len(kb) < MaxEntries
            /\ \E t \in Titles, s \in Standards :
                 /\ Pairing # {} => <<t, s.name>> \in Pairing
                 /\ form = "dict" => \A i \in DOMAIN kb : kb[i].t # t
                 /\ kb' = Append(kb, [t |-> t, s |-> s])
            /\ UNCHANGED <<noise, form, style, ref, rstyle, phase>>
AddNoise == /\ phase = "kb" /\ IsFile(form) /\ Len(noise) < MaxNoise
            /\ \E k \in Noise : noise' = Append(noise, [kind |-> k, at |-> Len(kb)])
            /\ UNCHANGED <<kb, form, style, ref, rstyle, phase>>
Use == /\ phase = "kb" /\ kb # <<>> /\ phase' = "ref" /\ UNCHANGED <<kb, noise, form, style, ref, rstyle>>
AddWord == /\ phase = "ref" /\ Len(ref) < MaxRef
           /\ \E w \in RefWords : ref' = Append(ref, w)
           /\ UNCHANGED <<kb, noise, form, style, rstyle, phase>>
Next == AddEntry \/ AddNoise \/ Use \/ AddWord

(* ------------------------------------------------------------- meaning *)
Broken == \E i \in DOMAIN noise : noise[i].kind = "bad"
(* titles: the last entry counts; standard names that are nobody's title *)
EntryTitles == {kb[i].t : i \in DOMAIN kb}
ByTitle(t) == LET i == CHOOSE n \in DOMAIN kb : kb[n].t = t /\ \A m \in DOMAIN kb : m > n => kb[m].t # t IN kb[i].s
Names == {kb[i].s.words : i \in DOMAIN kb} \ EntryTitles
Known == EntryTitles \cup Names
Standard(t) == IF t \in EntryTitles THEN ByTitle(t)
               ELSE (CHOOSE n \in {kb[i].s : i \in DOMAIN kb} : n.words = t)

Spans == {<<i, j>> \in (DOMAIN ref) \X (DOMAIN ref) : i <= j /\ SubSeq(ref, i, j) \in Known}
In(a, b) == b[1] <= a[1] /\ a[2] <= b[2]
Meet(a, b) == a[1] <= b[2] /\ b[1] <= a[2]
Longer(a, b) == Size(SubSeq(ref, b[1], b[2])) > Size(SubSeq(ref, a[1], a[2]))
(* titles that overlap without one being inside the other: not decided here *)
Clear == \A a, b \in Spans : a # b /\ Meet(a, b) => In(a, b) \/ In(b, a)
Taken == {a \in Spans : ~\E b \in Spans : a # b /\ In(a, b)}
Last == Len(ref)
JournalSpan == LET ends == {a \in Taken : a[2] = Last}
                   before == {a \in Taken : a[2] = Last - 1 /\ ref[Last] \in Series}
               IN IF ends # {} THEN ends ELSE before
Result ==
  IF JournalSpan = {} THEN [title |-> "", volume |-> ""]
  ELSE LET a == CHOOSE x \in JournalSpan : TRUE
           s == Standard(SubSeq(ref, a[1], a[2]))
           letter == IF a[2] = Last THEN s.series ELSE ref[Last]
       IN [title |-> s.name, volume |-> letter]
(* several standard journals with the same words: not decided here *)
OneMeaning == \A x, y \in {kb[i].s : i \in DOMAIN kb} : x.words = y.words => x = y

(* ----------------------------------------------------------- properties *)
LongestAtAPlace == \A a, b \in Spans : Clear /\ a[1] = b[1] /\ Longer(a, b) => a \notin Taken
AllTitlesAlone == (phase = "ref" /\ ref \in Known) => Result.title = Standard(ref).name
Emit == (phase = "ref" /\ ref # <<>> /\ Clear /\ OneMeaning) =>
          PrintT("@@" \o ToJson([kb |-> kb, noise |-> noise, form |-> form, style |-> style, ref |-> ref,
                                 rstyle |-> rstyle, broken |-> Broken, result |-> Result]))
===============================================================================
