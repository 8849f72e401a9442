------------------------------ MODULE PdfClean ------------------------------
(***************************************************************************)
(* A file that is written piece by piece and read, in any order.  Reading  *)
(* it removes the junk around the PDF document in it, and nothing else.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Text

CONSTANTS
  Pieces,    \* strings of characters that are written
  MaxPieces,
  MaxReads

Header == "%PDF-"
EndMark == "%%EOF"

VARIABLES file, ops, writes, reads, done
vars == <<file, ops, writes, reads, done>>

RECURSIVE LastIndexFrom(_, _, _)
LastIndexFrom(s, t, i) == IF i < 1 THEN 0
                          ELSE IF i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t THEN i
                          ELSE LastIndexFrom(s, t, i - 1)
LastIndex(s, t) == LastIndexFrom(s, t, Len(s))

(* the document in a file *)
Document(f) ==
  LET start == Index(f, Header)
      end == LastIndex(f, EndMark)
  IN IF start = 0 THEN f
     ELSE IF end < start THEN SubSeq(f, start, Len(f))
     ELSE SubSeq(f, start, end + Len(EndMark) - 1)

Init == file = "" /\ ops = <<>> /\ writes = 0 /\ reads = 0 /\ done = FALSE

Write(p) == /\ ~done /\ writes < MaxPieces
            /\ file' = file \o p
            /\ writes' = writes + 1
            /\ ops' = Append(ops, [op |-> "write", bytes |-> p, after |-> file \o p])
            /\ UNCHANGED <<reads, done>>

(* an empty file is not read: there is nothing to remove *)
Read == /\ ~done /\ reads < MaxReads /\ file # ""
        /\ file' = Document(file)
        /\ reads' = reads + 1
        /\ ops' = Append(ops, [op |-> "read", bytes |-> "", after |-> Document(file)])
        /\ UNCHANGED <<writes, done>>

Stop == /\ ~done /\ reads > 0 /\ ops[Len(ops)].op = "read"
        /\ done' = TRUE
        /\ UNCHANGED <<file, ops, writes, reads>>

Next == (\E p \in Pieces : Write(p)) \/ Read \/ Stop

(* only the files written at once, read twice *)
PlainNext == \/ (reads = 0 /\ \E p \in Pieces : Write(p)) \/ Read \/ (reads = MaxReads /\ Stop)
(* histories: every write is followed by a read *)
AlternateNext == \/ ((writes = reads) /\ \E p \in Pieces : Write(p)) \/ (reads < writes /\ Read)
                 \/ (writes = reads /\ writes = MaxPieces /\ Stop)

(* ------------------------------------------------------------ properties *)
IsInfix(a, b) == a = "" \/ HasSub(b, a)
Idempotent == Document(Document(file)) = Document(file)
(* what is removed was before the first header or after the last end marker *)
OnlyAround ==
  LET d == Document(file)
  IN /\ IsInfix(d, file)
     /\ Index(file, Header) = 0 => d = file
     /\ Index(file, Header) # 0 => Index(d, Header) = 1
     /\ (Index(file, Header) # 0 /\ LastIndex(d, EndMark) # 0) =>
            LastIndex(d, EndMark) + Len(EndMark) - 1 = Len(d)
     /\ (LastIndex(file, EndMark) < Index(file, Header)) =>
            Len(d) = Len(file) - Index(file, Header) + 1
ReadKeeps == \A i \in DOMAIN ops : ops[i].op = "read" /\ i > 1 /\ ops[i - 1].op = "read" =>
                 ops[i].after = ops[i - 1].after

Emit == done => PrintT("@@" \o ToJson([ops |-> ops]))
=============================================================================
