------------------------------- MODULE KbCache -------------------------------
(***************************************************************************)
(* The knowledge bases of a process over its life.                          *)
(*                                                                         *)
(* The caller holds objects (dictionaries, lists) and files, modifies them  *)
(* in place whenever it likes, and runs extractions with them.  What was    *)
(* loaded is kept and used again as long as it is up to date (cached, key). *)
(* The result of an extraction has to be the one of the contents at the     *)
(* time of the call, whatever happened before.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Types,      \* kinds of knowledge bases under consideration
  Objects,    \* objects and files of the caller (strings)
  Contents,   \* what they can hold; "bad" cannot be loaded, "missing": no file
  Files,      \* those of Objects that are files
  Defaults,   \* TRUE: extractions may use the default knowledge base
  MaxOps,
  Failing     \* TRUE: an extraction may fail after the knowledge bases were loaded

VARIABLES store, cached, key, log
vars == <<store, cached, key, log>>

Default == "default"
Nothing == "nothing"
(* what tells whether a source is still the one that was loaded *)
Snapshot(s) == IF s = Default THEN <<Default>>
               ELSE <<IF s \in Files THEN s ELSE "object", store[s]>>
ContentOf(s) == IF s = Default THEN Default ELSE store[s]
Loads(c) == c \notin {"bad", "missing"}

Init == /\ store \in [Objects -> {"A"}]
        /\ cached = [t \in Types |-> Nothing] /\ key = [t \in Types |-> <<>>]
        /\ log = <<>>

(* types are loaded one after the other; the first that cannot be loaded    *)
(* ends the extraction, what was loaded before is kept                      *)
RECURSIVE Load(_, _, _)
Load(ts, src, st) ==
  IF ts = <<>> \/ st.error THEN st
  ELSE LET t == Head(ts)
           s == src[t]
       IN IF st.key[t] = Snapshot(s) THEN Load(Tail(ts), src, st)
          ELSE IF Loads(ContentOf(s))
          THEN Load(Tail(ts), src, [st EXCEPT !.cached[t] = ContentOf(s), !.key[t] = Snapshot(s)])
          ELSE Load(Tail(ts), src, [st EXCEPT !.error = TRUE])
TypeOrder == CHOOSE q \in [1..Cardinality(Types) -> Types] : \A a, b \in DOMAIN q : q[a] = q[b] => a = b
Sources == Objects \cup (IF Defaults THEN {Default} ELSE {})

Extract(src, fails) ==
  /\ Len(log) < MaxOps
  /\ LET st == Load(TypeOrder, src, [cached |-> cached, key |-> key, error |-> FALSE])
     IN /\ cached' = st.cached /\ key' = st.key
        /\ log' = Append(log, [op |-> "extract", src |-> src, fails |-> fails,
                               result |-> IF st.error THEN [t \in Types |-> "error"] ELSE st.cached,
                               want |-> IF \A t \in Types : Loads(ContentOf(src[t]))
                                        THEN [t \in Types |-> ContentOf(src[t])]
                                        ELSE [t \in Types |-> "error"]])
  /\ UNCHANGED store
Modify(o, c) ==
  /\ Len(log) < MaxOps - 1
  /\ store[o] # c
  /\ c \in {"missing", "bad"} => o \in Files
  /\ store' = [store EXCEPT ![o] = c]
  /\ log' = Append(log, [op |-> "modify", o |-> o, c |-> c])
  /\ UNCHANGED <<cached, key>>

Next == \/ \E src \in [Types -> Sources], f \in (IF Failing THEN {TRUE, FALSE} ELSE {FALSE}) : Extract(src, f)
        \/ \E o \in Objects, c \in Contents : Modify(o, c)

(* ----------------------------------------------------------- properties *)
LikeAFreshProcess == \A i \in DOMAIN log : log[i].op = "extract" => log[i].result = log[i].want
CacheIsConsistent == \A t \in Types : cached[t] # Nothing => Loads(cached[t])
(* histories in which something happened before the last extraction *)
Emit == (Len(log) = MaxOps /\ log[MaxOps].op = "extract" /\ log[1].op = "extract") => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
