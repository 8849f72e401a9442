------------------------------- MODULE Overlap -------------------------------
(***************************************************************************)
(* Extractions that overlap: several threads, and callbacks that start an   *)
(* extraction inside another one.                                           *)
(*                                                                         *)
(* All of them share what was loaded last (cached).  An extraction enters   *)
(* the lock, brings every kind of knowledge base up to date, takes its own  *)
(* view and leaves the lock; afterwards only the view counts.  A source     *)
(* that cannot be loaded ends the extraction and frees the lock.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Threads,     \* e.g. <<"A", "B">>: contents each thread extracts with
  Types,       \* number of kinds of knowledge bases
  Points,      \* number of points of an extraction at which it can be interrupted
  Preempt,     \* number of times a thread is interrupted although it could go on
  Calls,       \* number of callbacks of an extraction
  Nested,      \* contents with which a callback may start an extraction
  MaxDepth,    \* how deep extractions may be nested
  MaxNested    \* number of nested extractions in total

VARIABLES
  cached, owner, depth,
  stack,       \* per thread: extractions under way, the last one is running
  started, running, switches, sched, results, nested
vars == <<cached, owner, depth, stack, started, running, switches, sched, results, nested>>

T == DOMAIN Threads
Free == 0
Acq == 2
View == Acq + Types + 1
End == IF Points > View + Calls THEN Points ELSE View + Calls
Bad(c) == c = "bad"
Frame(c) == [c |-> c, p |-> 1, view |-> <<>>, calls |-> 0, id |-> 0]

Init == /\ cached = [i \in 1..Types |-> "none"] /\ owner = Free /\ depth = 0
        /\ stack = [t \in T |-> <<>>] /\ started = [t \in T |-> FALSE]
        /\ running = 1 /\ switches = 0 /\ sched = <<>> /\ results = {} /\ nested = <<>>

Top(t) == stack[t][Len(stack[t])]
SetTop(t, f) == [stack EXCEPT ![t] = [@ EXCEPT ![Len(@)] = f]]
Pop(t) == [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Done(t) == started[t] /\ stack[t] = <<>>
Blocked(t) == stack[t] # <<>> /\ Top(t).p = Acq /\ owner \notin {Free, t}
CanRun(t) == ~Done(t) /\ ~Blocked(t)

Start == /\ ~started[running]
         /\ started' = [started EXCEPT ![running] = TRUE]
         /\ stack' = [stack EXCEPT ![running] = <<Frame(Threads[running])>>]
         /\ UNCHANGED <<cached, owner, depth, running, switches, sched, results, nested>>

Release(d) == /\ depth' = d - 1 /\ owner' = (IF d = 1 THEN Free ELSE owner)

Step ==
  LET t == running
      f == Top(t)
      next == [f EXCEPT !.p = @ + 1]
      i == f.p - Acq
  IN /\ stack[t] # <<>> /\ CanRun(t) /\ f.p <= End
     /\ CASE f.p = Acq -> /\ owner' = t /\ depth' = depth + 1
                          /\ stack' = SetTop(t, next) /\ UNCHANGED <<cached, results>>
          [] f.p \in Acq + 1 .. Acq + Types ->
               IF Bad(f.c) /\ i = Types
               THEN /\ stack' = Pop(t) /\ Release(depth)
                    /\ results' = results \cup {[c |-> f.c, view |-> <<"error">>]} /\ UNCHANGED cached
               ELSE /\ cached' = [cached EXCEPT ![i] = f.c]
                    /\ stack' = SetTop(t, next) /\ UNCHANGED <<owner, depth, results>>
          [] f.p = View -> /\ stack' = SetTop(t, [next EXCEPT !.view = cached]) /\ Release(depth)
                           /\ UNCHANGED <<cached, results>>
          [] OTHER -> stack' = SetTop(t, next) /\ UNCHANGED <<cached, owner, depth, results>>
     /\ UNCHANGED <<started, running, switches, sched, nested>>

(* a callback starts an extraction of its own; it goes on when that is over *)
Call(c) ==
  LET t == running
      f == Top(t)
  IN /\ stack[t] # <<>> /\ f.p \in View + 1 .. View + Calls
     /\ f.calls < f.p - View                          \* once per callback
     /\ Len(stack[t]) <= MaxDepth /\ Len(nested) < MaxNested
     /\ stack' = [stack EXCEPT ![t] = Append([@ EXCEPT ![Len(@)] = [f EXCEPT !.calls = f.p - View]],
                                             [Frame(c) EXCEPT !.id = Len(nested) + 1])]
     /\ nested' = Append(nested, [thread |-> t, parent |-> f.id, at |-> f.p - View, c |-> c])
     /\ UNCHANGED <<cached, owner, depth, started, running, switches, sched, results>>

Finish ==
  LET t == running
      f == Top(t)
  IN /\ stack[t] # <<>> /\ f.p > End
     /\ results' = results \cup {[c |-> f.c, view |-> f.view]}
     /\ stack' = Pop(t)
     /\ UNCHANGED <<cached, owner, depth, started, running, switches, sched, nested>>

(* another thread goes on: because this one cannot, or in the middle of it *)
Switch(u) ==
  /\ u # running /\ CanRun(u)
  /\ started[running]
  /\ CanRun(running) => switches < Preempt
  /\ switches' = IF CanRun(running) THEN switches + 1 ELSE switches
  /\ sched' = Append(sched, [t |-> running,
                             until |-> IF CanRun(running) THEN Top(running).p ELSE 0])   \* 0: as far as it gets
  /\ running' = u
  /\ UNCHANGED <<cached, owner, depth, stack, started, results, nested>>

Next == Start \/ Step \/ Finish \/ (\E c \in Nested : Call(c)) \/ (\E u \in T : Switch(u))

(* ----------------------------------------------------------- properties *)
AllDone == \A t \in T : Done(t)
Isolated == \A r \in results : r.view = IF Bad(r.c) THEN <<"error">> ELSE [i \in 1..Types |-> r.c]
LockIsFreed == AllDone => owner = Free /\ depth = 0
NoDeadlock == AllDone \/ \E t \in T : CanRun(t)
Emit == AllDone => PrintT("@@" \o ToJson([sched |-> sched, nested |-> nested]))
=============================================================================
