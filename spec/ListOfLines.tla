----------------------------- MODULE ListOfLines -----------------------------
(***************************************************************************)
(* Parsing a list of reference lines: line after line, the records of a     *)
(* line are appended and its counts are added.  What a line alone gives is  *)
(* a constant (taken from the code, each line in a process of its own); the *)
(* result of a list is then determined.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Lines,     \* numbers of the lines of the pool
  Records,   \* line -> sequence of the ids of its records
  Counts,    \* line -> [reportnum, title, author, url, doi, misc]
  MaxLines

VARIABLES todo, done, out, stats
vars == <<todo, done, out, stats>>

Fields == {"reportnum", "title", "author", "url", "doi", "misc"}
Zero == [f \in Fields |-> 0]
Init == todo = <<>> /\ done = <<>> /\ out = <<>> /\ stats = Zero
Parse(l) ==
  /\ Len(done) < MaxLines
  /\ done' = Append(done, l)
  /\ out' = out \o Records[l]
  /\ stats' = [f \in Fields |-> stats[f] + Counts[l][f]]
  /\ UNCHANGED todo
Next == \E l \in Lines : Parse(l)

(* a permutation of the lines permutes the records and keeps the statistics *)
Sum(S, f) == LET RECURSIVE go(_)
                 go(i) == IF i = 0 THEN 0 ELSE go(i - 1) + Counts[done[i]][f]
             IN go(Len(done))
StatsAreSums == \A f \in Fields : stats[f] = Sum(done, f)
AllReported == Len(out) = LET RECURSIVE go(_)
                              go(i) == IF i = 0 THEN 0 ELSE go(i - 1) + Len(Records[done[i]])
                          IN go(Len(done))
Emit == PrintT("@@" \o ToJson([lines |-> done, out |-> out, stats |-> stats]))
EmitLong == Len(done) = MaxLines => Emit
=============================================================================
