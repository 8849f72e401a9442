------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The life of a process that handles one document after the other.        *)
(*                                                                         *)
(* Within a document the code has a memory: the authors and the journal of  *)
(* the citation before (repeated authors, ibids), the numbering found, the  *)
(* titles that were not recognised, what is kept for the statistics.  This  *)
(* memory belongs to one extraction: it is empty when the next one starts,  *)
(* also when the one before failed half way, so that every result is the    *)
(* one of its document alone.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS
  Docs,       \* documents
  Entries,    \* ways to have them processed
  Stops,      \* how far an extraction gets: "end", "fails"
  MaxOps

VARIABLES memory, log
vars == <<memory, log>>

Init == memory = {} /\ log = <<>>
Process(d, e, s) ==
  /\ Len(log) < MaxOps
  /\ LET during == memory \cup {d}     \* what influences the result
     IN log' = Append(log, [doc |-> d, entry |-> e, stop |-> s, influenced |-> during])
  /\ memory' = {}
Next == \E d \in Docs, e \in Entries, s \in Stops : Process(d, e, s)

OnlyItsDocument == \A i \in DOMAIN log : log[i].influenced = {log[i].doc}
Emit == Len(log) = MaxOps => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
