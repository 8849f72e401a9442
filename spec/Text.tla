-------------------------------- MODULE Text --------------------------------
(* Operators on strings shared by the specifications.  TLC treats a string  *)
(* as a sequence of characters for Len, SubSeq and \o.                      *)
EXTENDS Integers, Sequences, TLC

Char(s, i) == SubSeq(s, i, i)
LastChar(s) == IF s = "" THEN "" ELSE Char(s, Len(s))
FirstChar(s) == IF s = "" THEN "" ELSE Char(s, 1)
DropFirst(s) == SubSeq(s, 2, Len(s))
DropLast(s) == SubSeq(s, 1, Len(s) - 1)

RECURSIVE LStripSet(_, _), RStripSet(_, _)
LStripSet(s, cs) == IF s = "" THEN "" ELSE
                    IF Char(s, 1) \in cs THEN LStripSet(DropFirst(s), cs) ELSE s
RStripSet(s, cs) == IF s = "" THEN "" ELSE
                    IF LastChar(s) \in cs THEN RStripSet(DropLast(s), cs) ELSE s
StripSet(s, cs) == RStripSet(LStripSet(s, cs), cs)
Blanks == {" ", "\t", "\n", "\f"}
Strip(s) == StripSet(s, Blanks)
RStrip(s) == RStripSet(s, Blanks)
LStrip(s) == LStripSet(s, Blanks)
IsBlank(s) == LStrip(s) = ""

(* does t occur in s, and where does it occur first (0: nowhere) *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, t, i) == IF i + Len(t) - 1 > Len(s) THEN 0
                      ELSE IF SubSeq(s, i, i + Len(t) - 1) = t THEN i
                      ELSE IndexFrom(s, t, i + 1)
Index(s, t) == IndexFrom(s, t, 1)
HasSub(s, t) == Index(s, t) # 0

RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o ConcatAll(Tail(ss))

(* the text without any blank *)
RECURSIVE Squeeze(_)
Squeeze(s) == IF s = "" THEN ""
              ELSE (IF Char(s, 1) \in Blanks THEN "" ELSE Char(s, 1)) \o Squeeze(DropFirst(s))

RECURSIVE RepeatStr(_, _)
RepeatStr(s, n) == IF n <= 0 THEN "" ELSE s \o RepeatStr(s, n - 1)

Num(n) == ToString(n)
=============================================================================
