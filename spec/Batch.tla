------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* The batch entry points: a list of references, a list of publication      *)
(* requests, a text, a document behind a URL.  Inputs are taken one by one; *)
(* each gets one answer.  What a single input gives with a knowledge base   *)
(* is a constant, written by hand:                                          *)
(*   [kind |-> "fails"]            the extraction from it raises an error   *)
(*   [kind |-> "found", records |-> <<ids of the records>>]                 *)
(* (no record: nothing found).  "empty" inputs are requests without a text, *)
(* which are never looked at.                                               *)
(*                                                                          *)
(* Several calls follow one another in one process; a call never depends on *)
(* the earlier ones.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Entries,     \* subset of {"list", "journal_info", "text", "url"}
  Inputs,      \* entry -> set of inputs
  Kbs,         \* knowledge bases
  Result,      \* entry -> input (a number) -> knowledge base -> what the input alone gives
  MaxInputs, MaxCalls

VARIABLES
  calls,       \* finished calls: [entry, kb, inputs, answer]
  cur,         \* the call under way: [entry, kb, inputs, answers, failed]
  busy
vars == <<calls, cur, busy>>

NoCall == [entry |-> "", kb |-> "", inputs |-> <<>>, answers |-> <<>>, failed |-> FALSE]
Init == calls = <<>> /\ cur = NoCall /\ busy = FALSE

Single(e) == e \in {"text", "url"}
Start(e, k) == /\ ~busy /\ Len(calls) < MaxCalls
               /\ cur' = [NoCall EXCEPT !.entry = e, !.kb = k] /\ busy' = TRUE /\ UNCHANGED calls

Raw(i) == [kind |-> "raw", input |-> i, records |-> <<>>]
Found(rs) == [kind |-> "records", input |-> 0, records |-> rs]
Nothing == [kind |-> "nothing", input |-> 0, records |-> <<>>]

AnswerOf(e, i, k) ==
  LET r == Result[e][i][k] IN
  CASE e = "list" -> IF r.kind = "fails" \/ r.records = <<>> THEN Raw(i) ELSE Found(<<Head(r.records)>>)
    [] e = "journal_info" -> IF r.kind # "found" \/ r.records = <<>> THEN Nothing ELSE Found(<<Head(r.records)>>)
    [] OTHER -> IF r.kind = "fails" THEN Nothing ELSE Found(r.records)

Fails(e, i, k) == Result[e][i][k].kind = "fails"

Take(i) ==
  /\ busy /\ Len(cur.inputs) < (IF Single(cur.entry) THEN 1 ELSE MaxInputs)
  /\ cur' = [cur EXCEPT !.inputs = Append(@, i),
                        !.answers = Append(@, AnswerOf(cur.entry, i, cur.kb)),
                        !.failed = @ \/ (cur.entry # "list" /\ Fails(cur.entry, i, cur.kb))]
  /\ UNCHANGED <<calls, busy>>

Return ==
  /\ busy /\ (Single(cur.entry) => Len(cur.inputs) = 1)
  /\ calls' = Append(calls, [entry |-> cur.entry, kb |-> cur.kb, inputs |-> cur.inputs,
                             answer |-> IF cur.failed THEN [none |-> TRUE, answers |-> <<>>]
                                        ELSE [none |-> FALSE, answers |-> cur.answers]])
  /\ cur' = NoCall /\ busy' = FALSE

Next == \/ \E e \in Entries, k \in Kbs : Start(e, k)
        \/ busy /\ \E i \in Inputs[cur.entry] : Take(i)
        \/ Return

---------------------------------------------------------------------------
(* one answer per input, in order *)
OneAnswerEach ==
  \A c \in 1..Len(calls) : ~calls[c].answer.none => Len(calls[c].answer.answers) = Len(calls[c].inputs)
(* an answer depends on its own input only *)
Isolated ==
  \A c \in 1..Len(calls) : \A n \in 1..Len(calls[c].answer.answers) :
     calls[c].answer.answers[n] = AnswerOf(calls[c].entry, calls[c].inputs[n], calls[c].kb)
(* a list of references is always answered; the others answer all or nothing *)
AllOrNothing ==
  \A c \in 1..Len(calls) :
     calls[c].answer.none <=>
        (calls[c].entry # "list" /\ \E n \in 1..Len(calls[c].inputs) : Fails(calls[c].entry, calls[c].inputs[n], calls[c].kb))
(* calls that came earlier do not matter *)
NoMemory ==
  \A a, b \in 1..Len(calls) : (calls[a].entry = calls[b].entry /\ calls[a].kb = calls[b].kb /\ calls[a].inputs = calls[b].inputs)
                               => calls[a].answer = calls[b].answer
Emit == (~busy /\ Len(calls) = MaxCalls) => PrintT("@@" \o ToJson(calls))
=============================================================================
