------------------------------ MODULE UrlFetch ------------------------------
(***************************************************************************)
(* Extraction from a URL: a temporary file is made, the document requested, *)
(* its chunks stored one after the other, the references extracted and the  *)
(* file removed.  At every step something can go wrong; whatever happens,   *)
(* the file is gone when the caller gets an answer, and the answer is       *)
(* determined by what went wrong.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Names,       \* last parts of URLs
  Hops,        \* redirections the server may answer with before the document
  Statuses,    \* final statuses
  Framings,    \* how the server says where the document ends: length, chunked, close, gzip
  Docs,        \* documents: [id, kind] with kind \in {"text", "pdf", "unknown", "empty"}
  Chunks,      \* number of parts the server sends a document in
  Uses,        \* what happens in the extraction: "fine" or the name of an error
  ConnFaults, SendFaults, StoreFaults   \* faults of the connection, the transfer and the file system

VARIABLES
  phase,       \* where the extraction is
  plan,        \* what was chosen: [name, hops, status, framing, doc, use]
  tmp,         \* does the temporary file exist
  sent,        \* parts received and stored
  fault,       \* what went wrong
  outcome
vars == <<phase, plan, tmp, sent, fault, outcome>>

Running == "running"
None == [at |-> "nowhere", what |-> "nothing"]
Init ==
  /\ phase = "start" /\ tmp = FALSE /\ sent = 0 /\ fault = None /\ outcome = Running
  /\ plan = [name |-> "", hops |-> <<>>, status |-> 0, framing |-> "", doc |-> "", use |-> ""]

Done == phase = "done"
(* leave with an outcome: the file is removed on the way out *)
Leave(o) == phase' = "done" /\ outcome' = o /\ tmp' = FALSE

Start(n) ==
  /\ phase = "start"
  /\ plan' = [plan EXCEPT !.name = n]
  /\ \/ phase' = "request" /\ tmp' = TRUE /\ UNCHANGED <<fault, outcome>>
     \/ "no directory" \in StoreFaults /\ fault' = [at |-> "create", what |-> "no directory"] /\ Leave("os error")
  /\ UNCHANGED sent

(* the server redirects, answers with a status, or there is no answer *)
Redirect(h) ==
  /\ phase = "request" /\ Len(plan.hops) < 2
  /\ plan' = [plan EXCEPT !.hops = Append(@, h)]
  /\ UNCHANGED <<phase, tmp, sent, fault, outcome>>
NoAnswer(f) ==
  /\ phase = "request" /\ f \in ConnFaults
  /\ fault' = [at |-> "request", what |-> f]
  /\ Leave(IF f = "interrupt" THEN "interrupt" ELSE "request error")
  /\ UNCHANGED <<plan, sent>>
HttpError(s) == s >= 400 /\ s < 600
Answer(s, d, fr) ==
  /\ phase = "request"
  /\ plan' = [plan EXCEPT !.status = s, !.doc = d, !.framing = fr]
  /\ IF HttpError(s) THEN Leave("full text not available") /\ UNCHANGED fault
     ELSE phase' = "transfer" /\ UNCHANGED <<tmp, outcome, fault>>
  /\ UNCHANGED sent

(* the document arrives part by part *)
Part ==
  /\ phase = "transfer" /\ sent < Chunks
  /\ sent' = sent + 1
  /\ UNCHANGED <<phase, plan, tmp, fault, outcome>>
(* an end that comes too early is noticed if the end is announced *)
Noticed(f) == f # "cut" \/ plan.framing # "close"
Cut(f) ==
  /\ phase = "transfer" /\ sent < Chunks /\ f \in SendFaults /\ Noticed(f)
  /\ fault' = [at |-> "transfer", what |-> f]
  /\ Leave(IF f = "interrupt" THEN "interrupt" ELSE "request error")
  /\ UNCHANGED <<plan, sent>>
Full ==
  /\ phase = "transfer" /\ sent > 0 /\ sent < Chunks /\ "disk full" \in StoreFaults
  /\ fault' = [at |-> "store", what |-> "disk full"]
  /\ Leave("os error") /\ UNCHANGED <<plan, sent>>
Arrived ==
  /\ phase = "transfer" /\ sent = Chunks
  /\ phase' = "extract" /\ UNCHANGED <<plan, tmp, sent, fault, outcome>>

(* then it is a local file *)
KindOf(d) == (CHOOSE x \in Docs : x.id = d).kind
Extract(u) ==
  /\ phase = "extract"
  /\ plan' = [plan EXCEPT !.use = u]
  /\ fault' = IF u = "fine" THEN None ELSE [at |-> "extract", what |-> u]
  /\ Leave(CASE KindOf(plan.doc) \in {"unknown", "empty"} -> "unknown document type"
             [] u = "fine" -> "references"
             [] OTHER -> "error of the extraction")
  /\ UNCHANGED sent

Next ==
  \/ \E n \in Names : Start(n)
  \/ \E h \in Hops : Redirect(h)
  \/ \E f \in ConnFaults : NoAnswer(f)
  \/ \E s \in Statuses, d \in {x.id : x \in Docs}, fr \in Framings : Answer(s, d, fr)
  \/ Part \/ \E f \in SendFaults : Cut(f)
  \/ Full \/ Arrived
  \/ \E u \in Uses : Extract(u)

---------------------------------------------------------------------------
NothingLeft == Done => ~tmp
NoPartialDocument == outcome \in {"references", "unknown document type"} => sent = Chunks
FaultsAreReported == (Done /\ fault # None) => outcome # "references"
HttpErrorsOnly == (outcome = "full text not available") <=> (Done /\ HttpError(plan.status))
Emit == Done => PrintT("@@" \o ToJson([plan |-> plan, sent |-> sent, fault |-> fault, outcome |-> outcome]))
=============================================================================
