------------------------------ MODULE PdfLinks ------------------------------
(***************************************************************************)
(* Citation keys and links of a PDF.  Keys are named destinations placed on *)
(* pages, links are annotations; both are placed in any order.  When the    *)
(* document is read the keys are put in reading order and, if there are as  *)
(* many as records, attached to them one by one, each with the links that   *)
(* stand between it and the next one.                                       *)
(*                                                                          *)
(* A place is [page, col, row, x]: col 0 or 1 is the half of the page, rows *)
(* count from the top, x is the offset in the half.  A link has a line in   *)
(* addition (0: the line of the row, 1: the line below).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Records,     \* set of sequences: the links found in the text of each record
  KeyPlaces, LinkPlaces,   \* places that can be used
  MaxKeys, MaxLinks, MinKeys,
  Targets,     \* what links lead to, in their sorting order
  Strange      \* kinds of unusual things that can be in the document; "" for none

VARIABLES recs, keys, links, strange, phase, at, out
vars == <<recs, keys, links, strange, phase, at, out>>

Init == recs = <<>> /\ keys = <<>> /\ links = <<>> /\ strange = "" /\ phase = "place" /\ at = 0 /\ out = <<>>

Begin(r, s) == /\ phase = "place" /\ recs = <<>> /\ keys = <<>> /\ links = <<>>
               /\ recs' = r /\ strange' = s /\ phase' = "keys"
               /\ UNCHANGED <<keys, links, at, out>>
(* keys stand at different places *)
AddKey(p) == /\ phase = "keys" /\ Len(keys) < MaxKeys
             /\ \A i \in 1..Len(keys) : keys[i] # p
             /\ keys' = Append(keys, p)
             /\ UNCHANGED <<recs, links, strange, phase, at, out>>
Half == 3
TwoColumns == \E x \in {keys[i].x : i \in 1..Len(keys)} :
                 Cardinality({i \in 1..Len(keys) : keys[i].col = 1 /\ keys[i].x = x}) >= Half
(* reading order as a number *)
Pos(p, line) == IF TwoColumns THEN ((p.page * 2 + p.col) * 20 + p.row * 2 + line) * 20 + p.x
                ELSE ((p.page * 20 + p.row * 2 + line) * 2 + p.col) * 20 + p.x
(* the place of a link without its offset: a key on the same line stands before it *)
KeyPos(p) == IF TwoColumns THEN (p.page * 2 + p.col) * 20 + p.row * 2 ELSE p.page * 20 + p.row * 2
LinkPos(p) == KeyPos(p) + p.line
Placed == /\ phase = "keys" /\ Len(keys) >= MinKeys
          (* two keys on one line cannot be told apart by the links between them *)
          /\ \A i, j \in 1..Len(keys) : i # j => KeyPos(keys[i]) # KeyPos(keys[j])
          /\ phase' = "links" /\ UNCHANGED <<recs, keys, links, strange, at, out>>
LastKey == CHOOSE i \in 1..Len(keys) : \A j \in 1..Len(keys) : KeyPos(keys[j]) <= KeyPos(keys[i])
(* what follows the last reference is not part of the list, where that ends is not known: only links
   that clearly belong to it, or clearly do not, are placed there *)
Clear(p) == IF keys = <<>> THEN TRUE ELSE LinkPos(p) < KeyPos(keys[LastKey])
            \/ (p.page = keys[LastKey].page /\ (p.col = keys[LastKey].col \/ (~TwoColumns /\ p.col > keys[LastKey].col)))
            \/ p.page > keys[LastKey].page + 1
AddLink(p, t) == /\ phase = "links" /\ Len(links) < MaxLinks
                 /\ Clear(p) = TRUE
                 /\ links' = Append(links, [at |-> p, to |-> t])
                 /\ UNCHANGED <<recs, keys, strange, phase, at, out>>
Read == /\ phase = "links" /\ phase' = (IF Len(keys) = Len(recs) /\ keys # <<>> THEN "attach" ELSE "done")
        /\ at' = 1
        /\ out' = IF Len(keys) = Len(recs) /\ keys # <<>> THEN <<>>
                  ELSE [i \in 1..Len(recs) |-> [key |-> 0, urls |-> recs[i]]]
        /\ UNCHANGED <<recs, keys, links, strange>>

(* the key that comes as number n in reading order *)
InOrder(n) == CHOOSE i \in 1..Len(keys) : Cardinality({j \in 1..Len(keys) : Pos(keys[j], 0) < Pos(keys[i], 0)}) = n - 1
Owner(l) == LET before == {i \in 1..Len(keys) : KeyPos(keys[i]) <= LinkPos(l.at)}
            IN IF before = {} THEN 0
               ELSE LET o == CHOOSE i \in before : \A j \in before : KeyPos(keys[j]) <= KeyPos(keys[i])
                    IN IF o = LastKey /\ l.at.page > keys[o].page + 1 THEN 0 ELSE o
Mem(q, x) == \E i \in 1..Len(q) : q[i] = x
RECURSIVE Sorted(_, _)
Sorted(S, n) == IF n > Len(Targets) THEN <<>>
                ELSE (IF Targets[n] \in S THEN <<Targets[n]>> ELSE <<>>) \o Sorted(S, n + 1)
RECURSIVE Added(_, _)
Added(q, more) == IF more = <<>> THEN q
                  ELSE IF Mem(q, Head(more)) THEN Added(q, Tail(more)) ELSE Added(Append(q, Head(more)), Tail(more))
Attach ==
  /\ phase = "attach" /\ at <= Len(recs)
  /\ LET k == InOrder(at)
         mine == {links[j].to : j \in {m \in 1..Len(links) : Owner(links[m]) = k}}
     IN out' = Append(out, [key |-> k, urls |-> Added(Added(<<>>, recs[at]), Sorted(mine, 1))])
  /\ at' = at + 1
  /\ phase' = IF at = Len(recs) THEN "done" ELSE "attach"
  /\ UNCHANGED <<recs, keys, links, strange>>

Next == \/ \E r \in Records, s \in Strange : Begin(r, s)
        \/ \E p \in KeyPlaces : AddKey(p)
        \/ Placed
        \/ \E p \in LinkPlaces, n \in 1..Len(Targets) : AddLink(p, Targets[n])
        \/ Read \/ Attach
(* for simulation: as many keys as records, all links *)
LongNext == \/ \E r \in Records, s \in Strange : Begin(r, s)
            \/ \E p \in KeyPlaces : Len(keys) < Len(recs) /\ AddKey(p)
            \/ Len(keys) = Len(recs) /\ Placed
            \/ \E p \in LinkPlaces, n \in 1..Len(Targets) : AddLink(p, Targets[n])
            \/ Len(links) = MaxLinks /\ Read
            \/ Attach

---------------------------------------------------------------------------
Done == phase = "done"
OneEach == Done => /\ Len(out) = Len(recs)
                   /\ \A i, j \in 1..Len(out) : (i # j /\ out[i].key # 0) => out[i].key # out[j].key
AllOrNone == Done => \/ \A i \in 1..Len(out) : out[i].key = 0
                     \/ {out[i].key : i \in 1..Len(out)} = 1..Len(keys)
KeysInOrder == Done => \A i, j \in 1..Len(out) : (i < j /\ out[i].key # 0) => Pos(keys[out[i].key], 0) < Pos(keys[out[j].key], 0)
NoDuplicates == Done => \A i \in 1..Len(out) : \A m, n \in 1..Len(out[i].urls) :
                          (m # n /\ out[i].key # 0) => out[i].urls[m] # out[i].urls[n]
LinksOnce == Done => \A l \in 1..Len(links) :
               Cardinality({i \in 1..Len(out) : out[i].key # 0 /\ out[i].key = Owner(links[l])}) <= 1
Emit == Done => PrintT("@@" \o ToJson([recs |-> recs, keys |-> keys, links |-> links, strange |-> strange, out |-> out,
                                       two |-> TwoColumns]))
=============================================================================
