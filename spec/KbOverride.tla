------------------------------ MODULE KbOverride ------------------------------
(***************************************************************************)
(* Which knowledge base an extraction uses, per kind: the caller's if there *)
(* is one, in whatever form, else the default one.  Passing None is the     *)
(* same as not passing anything.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Ways, MaxGiven,
  Malformed    \* kinds whose files cannot have lines that are no entries
VARIABLES given, used
vars == <<given, used>>
Init == given = [k \in Kinds |-> "absent"] /\ used = [k \in Kinds |-> "default"]
Give(k, w) == /\ given[k] = "absent" /\ Cardinality({x \in Kinds : given[x] # "absent"}) < MaxGiven
              /\ w = "malformed" => k \in Malformed
              /\ given' = [given EXCEPT ![k] = w]
              /\ used' = [used EXCEPT ![k] = IF w = "none" THEN "default"
                                               ELSE IF w = "malformed" THEN "error" ELSE "custom"]
Next == \E k \in Kinds, w \in Ways : Give(k, w)
ExactlyTheNamedOnes == \A k \in Kinds : used[k] = "custom" <=> given[k] \notin {"absent", "none", "malformed"}
ErrorsAreNoticed == \A k \in Kinds : used[k] = "error" <=> given[k] = "malformed"
Emit == PrintT("@@" \o ToJson([given |-> given, used |-> used]))
===============================================================================
