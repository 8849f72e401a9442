------------------------------- MODULE KbNames -------------------------------
(***************************************************************************)
(* Knowledge bases of names (publishers, collaborations): written entry by  *)
(* entry, loaded, and used on the words of a reference.                     *)
(*                                                                         *)
(* A name is found where all of its words stand one after the other, as     *)
(* whole words, in whatever case and with whatever punctuation between.     *)
(* What is inside of a longer name is not looked at again.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Names,        \* names, as sequences of words
  Repls,        \* what they are reported as
  Forms,        \* ways to pass the knowledge base
  MaxEntries,
  Words, MaxRef,   \* references are sequences of such words
  Gaps             \* what stands between words

VARIABLES kb, form, ref, phase
vars == <<kb, form, ref, phase>>

Init == kb = <<>> /\ ref = <<>> /\ phase = "kb" /\ form \in Forms
AddEntry == /\ phase = "kb" /\ Len(kb) < MaxEntries
            /\ \E n \in Names, r \in Repls :
                 /\ \A i \in DOMAIN kb : kb[i].n # n
                 /\ kb' = Append(kb, [n |-> n, r |-> r])
            /\ UNCHANGED <<form, ref, phase>>
Use == phase = "kb" /\ phase' = "ref" /\ UNCHANGED <<kb, form, ref>>
AddWord == /\ phase = "ref" /\ Len(ref) < MaxRef
           /\ \E w \in Words, g \in Gaps : ref' = Append(ref, [w |-> w, g |-> g])
           /\ UNCHANGED <<kb, form, phase>>
Next == AddEntry \/ Use \/ AddWord

Of(i, j) == [k \in 1..(j - i + 1) |-> ref[i + k - 1].w]
Known == {kb[i].n : i \in DOMAIN kb}
Spans == {<<i, j>> \in (DOMAIN ref) \X (DOMAIN ref) : i <= j /\ Of(i, j) \in Known}
In(a, b) == b[1] <= a[1] /\ a[2] <= b[2]
Meet(a, b) == a[1] <= b[2] /\ b[1] <= a[2]
Clear == \A a, b \in Spans : a # b /\ Meet(a, b) => In(a, b) \/ In(b, a)
Taken == {a \in Spans : ~\E b \in Spans : a # b /\ In(a, b)}
Repl(n) == kb[CHOOSE i \in DOMAIN kb : kb[i].n = n].r
RECURSIVE Found(_)
Found(i) == IF i > Len(ref) THEN <<>>
            ELSE LET here == {a \in Taken : a[1] = i}
                 IN IF here = {} THEN Found(i + 1)
                    ELSE LET a == CHOOSE x \in here : TRUE IN <<Repl(Of(a[1], a[2]))>> \o Found(a[2] + 1)

(* ----------------------------------------------------------- properties *)
OnlyKnown == (phase = "ref" /\ Clear) => Len(Found(1)) = Cardinality(Taken)
AloneFound == (phase = "ref" /\ Of(1, Len(ref)) \in Known) => Found(1) = <<Repl(Of(1, Len(ref)))>>
Emit == (phase = "ref" /\ ref # <<>> /\ Clear) =>
          PrintT("@@" \o ToJson([kb |-> kb, form |-> form, ref |-> ref, found |-> Found(1)]))
===============================================================================
