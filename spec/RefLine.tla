------------------------------- MODULE RefLine -------------------------------
(***************************************************************************)
(* One reference line, from its pieces to the records reported for it.     *)
(*                                                                         *)
(* A line is read piece by piece (Read).  A piece is plain text, or        *)
(* something that is recognised: it then becomes an element that carries   *)
(* the text standing before it.  Elements are handed to the splitter,      *)
(* which opens a new citation at a semicolon and where something a paper   *)
(* has only once is repeated, and which passes authors on to papers        *)
(* without one.  When the line is closed (Close), numerations without a    *)
(* journal are resolved (Ibids), years are found (Years), repeated data    *)
(* is removed (Dedupe), and the records are built (Build).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, Text

CONSTANTS
  Pieces,     \* alphabet of pieces: records [k, t, v, title, series, vol, year, page]
  Seps,       \* what can stand between two pieces
  MaxPieces,
  Leads,      \* what can stand before the first piece
  Tails,      \* what can stand after the last piece
  Marker,     \* number the line starts with ("" for none)
  Special     \* journals counted by year

VARIABLES phase, line, misc, prev, split, cits, tail, records
vars == <<phase, line, misc, prev, split, cits, tail, records>>

(* ------------------------------------------------------------- elements *)
NoEl == [type |-> "NONE", misc |-> "", v |-> "", title |-> "", series |-> "", vol |-> "", year |-> "",
         page |-> "", id |-> 0]
El(ty, m, v, id) == [NoEl EXCEPT !.type = ty, !.misc = m, !.v = v, !.id = id]
MiscEl(m) == El("MISC", m, "", 0)

Upto2(s) == SubSeq(s, Len(s) - 1, Len(s))
TwoDigits(v) == IF Len(v) = 1 THEN "0" \o v ELSE v
ThreeDigits(p) == IF Len(p) = 1 THEN "00" \o p ELSE IF Len(p) = 2 THEN "0" \o p ELSE p
VolumeOf(title, series, vol, year) ==
  IF title \in Special /\ Len(vol) <= 2 /\ series = "" THEN Upto2(year) \o TwoDigits(vol) ELSE series \o vol
PageOf(title, page) == IF title \in Special THEN ThreeDigits(page) ELSE page
JournalEl(m, title, series, p, id) ==
  [El("JOURNAL", m, "", id) EXCEPT
     !.title = title, !.series = series, !.vol = VolumeOf(title, series, p.vol, p.year), !.year = p.year,
     !.page = PageOf(title, p.page)]

(* ------------------------------------------------------------- splitter *)
EmptySplit == [cit |-> <<>>, types |-> {}, nauth |-> 0, post |-> NoEl,
               reason |-> "", out |-> <<>>, seen |-> 0]
SepBlank(t) == StripSet(t, {" ", ".", ","}) = ""

RECURSIVE SplitSemi(_)
SplitSemi(t) == LET i == Index(t, ";")
                IN IF i = 0 THEN <<t>>
                   ELSE <<SubSeq(t, 1, i - 1)>> \o SplitSemi(SubSeq(t, i + 1, Len(t)))
Front1(s) == SubSeq(s, 1, Len(s) - 1)

(* an element with several semicolons before it is preceded by the text     *)
(* between them                                                             *)
RECURSIVE Chop(_, _)
Chop(e, ps) ==
  IF Len(ps) = 1 THEN <<[e EXCEPT !.misc = ps[1]]>>
  ELSE IF Len(ps) = 2 THEN <<[e EXCEPT !.misc = ps[1] \o ";" \o ps[2]]>>
  ELSE <<MiscEl(ps[1] \o ";" \o ps[2])>> \o Chop(e, <<"">> \o SubSeq(ps, 3, Len(ps)))
Expand(e, first) ==
  LET p0 == SplitSemi(e.misc)
      p1 == IF Len(p0) <= 2 THEN p0
            ELSE <<p0[1]>> \o SelectSeq(SubSeq(p0, 2, Len(p0) - 1), LAMBDA t : ~SepBlank(t)) \o <<p0[Len(p0)]>>
      p2 == IF Len(p1) > 1 /\ first /\ SepBlank(p1[1]) THEN Tail(p1) ELSE p1
      p3 == IF Len(p2) > 1 /\ e.type = "MISC" /\ SepBlank(p2[Len(p2)]) THEN Front1(p2) ELSE p2
  IN Chop(e, p3)

Repeatable == {"REPORTNUMBER", "COLLABORATION"}
SplitType(e) == IF e.type = "BOOK" THEN "QUOTED" ELSE e.type   \* a book is known by its title
SplitReason(st, e) ==
  IF HasSub(e.misc, ";") THEN "semicolon"
  ELSE IF SplitType(e) \in (st.types \ Repeatable) THEN "repeated"
  ELSE ""

Authors(cit) == Cardinality({i \in DOMAIN cit : cit[i].type = "AUTH"})
LastAuthor(cit) == LET is == {i \in DOMAIN cit : cit[i].type = "AUTH"}
                   IN IF is = {} THEN NoEl ELSE cit[CHOOSE i \in is : \A j \in is : j <= i]

(* an author carried over: taken from the paper before if that one has      *)
(* another author, shared with it otherwise                                 *)
TakeOver(st) ==
  IF st.post.type = "NONE" \/ ~(st.nauth = 0 \/ st.reason = "repeated") THEN st
  ELSE LET n == Len(st.out)
           moved == Authors(st.out[n]) > 1
       IN [st EXCEPT
            !.out[n] = IF moved THEN SelectSeq(@, LAMBDA x : x.id # st.post.id) ELSE @,
            !.cit = <<IF moved THEN st.post ELSE [st.post EXCEPT !.misc = ""]>> \o @,
            !.nauth = @ + 1]

OpenCitation(st, reason) ==
  LET s1 == TakeOver(st)
  IN [s1 EXCEPT !.post = IF s1.nauth = 0 THEN NoEl ELSE LastAuthor(s1.cit),
                !.out = Append(@, s1.cit), !.cit = <<>>, !.types = {}, !.nauth = 0,
                !.reason = reason]

Consume(st, e) ==
  LET reason == SplitReason(st, e)
      i == Index(e.misc, ";")
      before == SubSeq(e.misc, 1, i - 1)
      e1 == IF reason = "semicolon" THEN [e EXCEPT !.misc = SubSeq(e.misc, i + 1, Len(e.misc))] ELSE e
      s0 == IF reason = "semicolon" THEN [st EXCEPT !.cit = Append(@, MiscEl(before))] ELSE st
      s1 == IF reason = "" THEN st ELSE OpenCitation(s0, reason)
      s2 == [s1 EXCEPT !.cit = Append(@, e1)]
  IN CASE e1.type = "MISC" -> s2
       [] e1.type = "AUTH" -> [s2 EXCEPT !.nauth = @ + 1]
       [] OTHER -> [s2 EXCEPT !.types = @ \cup {SplitType(e1)}]

RECURSIVE ConsumeAll(_, _)
ConsumeAll(st, es) == IF es = <<>> THEN st ELSE ConsumeAll(Consume(st, Head(es)), Tail(es))
Hand(st, e) == [ConsumeAll(st, Expand(e, st.seen = 0)) EXCEPT !.seen = st.seen + 1]
Closed(st) == LET s1 == TakeOver(st) IN Append(s1.out, s1.cit)

(* -------------------------------------------------------------- reading *)
OneBlank(s) == IF s = "  " THEN " " ELSE s
TextKinds == {"text", "year", "num", "booktext"}
NoJournal == [title |-> "", series |-> ""]

(* an ibid stands for the journal before it, nothing is made up without one *)
IsText(p) == p.k \in TextKinds \/ (p.k = "ibid" /\ prev.title = "")

(* The class of lines considered: an author follows a blank, and is         *)
(* followed by punctuation and then by something else; DOIs, handles and links may contain nearly any   *)
(* character, so a blank has to follow the punctuation that separates them; *)
(* a bare numeration is one after a semicolon, with a journal before it.    *)
BlankSecond(s) == Len(s) >= 2 /\ Char(s, 2) = " "
Allowed(p, s) ==
  /\ Len(line) > 0 => LET q == line[Len(line)].p
                      IN /\ q.k = "AUTH" => (FirstChar(s) \in {",", ";"} /\ p.k # "AUTH")
                         /\ p.k = "AUTH" => (LastChar(s) = " " /\ s # ", see " /\ ((q.k = "COLLABORATION" \/ Char(p.t, 2) # ".") => ~IsBlank(s)))
                         /\ p.k = "num" => (s = "; " /\ prev.title # "")
                         /\ q.k \in {"DOI", "HDL", "URL"} => (FirstChar(s) = " " \/ BlankSecond(s))
                         /\ (q.k \in {"JOURNAL", "ibid", "num"} /\ p.k = "year") => s # " - "   \* a page range
                         /\ (q.k = "year" /\ p.k = "year") => prev.title = ""   \* could be a numeration
                         /\ (q.k \in {"text", "year", "booktext"} /\ p.k \in {"text", "year", "booktext"}) => FirstChar(s) # ";"
  /\ Len(line) = 0 => p.k # "num"

Read(p, s) ==
  /\ phase = "read" /\ Len(line) < MaxPieces
  /\ IF Len(line) = 0 THEN s \in Leads ELSE s \in Seps
  /\ Allowed(p, s)
  /\ line' = Append(line, [p |-> p, s |-> s])
  /\ LET m == misc \o OneBlank(s)   \* blanks are not significant
         id == Len(line) + 1
         series == IF p.series # "" THEN p.series ELSE prev.series
     IN IF IsText(p)
        THEN misc' = m \o (IF p.k = "text" /\ p.v # "" THEN p.v ELSE p.t) /\ UNCHANGED <<prev, split>>
        ELSE /\ misc' = ""
             /\ CASE p.k = "JOURNAL" ->
                       /\ split' = Hand(split, JournalEl(m, p.title, p.series, p, id))
                       /\ prev' = [title |-> p.title, series |-> p.series]
                  [] p.k = "ibid" ->
                       /\ split' = Hand(split, JournalEl(m, prev.title, series, p, id))
                       /\ prev' = [prev EXCEPT !.series = series]
                  [] p.k = "BOOK" -> /\ split' = Hand(split, [El("BOOK", m, p.v, id) EXCEPT !.year = p.year])
                                     /\ prev' = prev
                  [] OTHER -> /\ split' = Hand(split, [El(p.k, IF p.k = "AUTH" THEN RStrip(m) ELSE m, p.v, id) EXCEPT !.title = p.title])
                              /\ prev' = prev
  /\ UNCHANGED <<phase, cits, tail, records>>

(* the text after the last recognised piece *)
Close(t) ==
  /\ phase = "read" /\ line # <<>>
  /\ line[Len(line)].p.k # "AUTH"
  /\ LET m == misc \o t
         st == IF StripSet(m, {" ", ".", ";", ","}) = "" THEN split ELSE Hand(split, MiscEl(m))
     IN cits' = Closed(st)
  /\ tail' = t /\ misc' = "" /\ split' = EmptySplit
  /\ phase' = "ibids"
  /\ UNCHANGED <<line, prev, records>>

(* numeration at the start of the text of a paper without a journal: it     *)
(* refers to the journal of the paper before                                *)
Numerations == {x.p : x \in {y \in Range(line) : y.p.k = "num"}}
HasJournal(cit) == \E i \in DOMAIN cit : cit[i].type = "JOURNAL"
StartsNum(m) == {p \in Numerations : Index(LStripSet(m, {" ", ","}), p.t) = 1}
ResolveIn(cit, journal) ==
  IF journal.type = "NONE" \/ HasJournal(cit) THEN cit
  ELSE LET is == {i \in DOMAIN cit : cit[i].type = "MISC" /\ StartsNum(cit[i].misc) # {}}
       IN IF is = {} THEN cit
          ELSE LET i == CHOOSE x \in is : \A y \in is : x <= y
                   p == CHOOSE x \in StartsNum(cit[i].misc) : TRUE
                   rest == LStripSet(cit[i].misc, {" ", ","})
                   series == IF p.series # "" THEN p.series ELSE journal.series
               IN Append([cit EXCEPT ![i].misc = SubSeq(rest, Len(p.t) + 1, Len(rest))],
                         JournalEl("", journal.title, series, p, 0))
LastJournal(cit) == LET is == {i \in DOMAIN cit : cit[i].type = "JOURNAL"}
                    IN IF is = {} THEN NoEl ELSE cit[CHOOSE i \in is : \A j \in is : j <= i]
RECURSIVE ResolveAll(_, _)
ResolveAll(cs, journal) ==
  IF cs = <<>> THEN <<>>
  ELSE LET c == ResolveIn(Head(cs), journal) IN <<c>> \o ResolveAll(Tail(cs), LastJournal(c))
Ibids == /\ phase = "ibids" /\ phase' = "years"
         /\ cits' = ResolveAll(cits, NoEl)
         /\ UNCHANGED <<line, misc, prev, split, tail, records>>

(* -------------------------------------------------------------- years *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsDigitAt(s, i) == i >= 1 /\ i <= Len(s) /\ Char(s, i) \in Digits
YearAt(s, i) == /\ i + 3 <= Len(s)
                /\ SubSeq(s, i, i + 1) \in {"19", "20"}
                /\ IsDigitAt(s, i + 2) /\ IsDigitAt(s, i + 3)
                /\ ~IsDigitAt(s, i - 1) /\ ~IsDigitAt(s, i + 4)
FirstYear(s) == LET is == {i \in 1..Len(s) : YearAt(s, i)}
                IN IF is = {} THEN "" ELSE LET i == CHOOSE x \in is : \A y \in is : x <= y IN SubSeq(s, i, i + 3)
RECURSIVE DropIn(_, _), DropBare(_, _)
DropIn(s, t) == LET i == Index(s, t)
                IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o DropIn(SubSeq(s, i + Len(t), Len(s)), t)
DropBare(s, y) ==
  LET is == {i \in 1..Len(s) : YearAt(s, i) /\ SubSeq(s, i, i + 3) = y}
  IN IF is = {} THEN s
     ELSE LET i == CHOOSE x \in is : \A z \in is : x <= z
          IN RStrip(SubSeq(s, 1, i - 1)) \o " " \o DropBare(LStrip(SubSeq(s, i + 4, Len(s))), y)
RemoveYear(s, y) == DropBare(DropIn(DropIn(s, "[" \o y \o "]"), "(" \o y \o ")"), y)

OwnYear(cit) == LET is == {i \in DOMAIN cit : cit[i].type \in {"JOURNAL", "BOOK"}}
                IN IF is = {} THEN "" ELSE cit[CHOOSE i \in is : \A j \in is : i <= j].year
TextYear(cit) == LET is == {i \in DOMAIN cit : FirstYear(cit[i].misc) # ""}
                 IN IF is = {} THEN "" ELSE FirstYear(cit[CHOOSE i \in is : \A j \in is : j <= i].misc)
WithYear(cit) ==
  LET y == IF OwnYear(cit) # "" THEN OwnYear(cit) ELSE TextYear(cit)
  IN IF y = "" THEN cit
     ELSE Append([i \in DOMAIN cit |-> [cit[i] EXCEPT !.misc = RemoveYear(@, y)]], El("YEAR", "", y, 0))
Years == /\ phase = "years" /\ phase' = "books"
         /\ cits' = [i \in DOMAIN cits |-> WithYear(cits[i])]
         /\ UNCHANGED <<line, misc, prev, split, tail, records>>

(* ---------------------------------------------------------------- books *)
(* a paper without better data whose text contains the title of a book of   *)
(* its year is that book                                                    *)
BookTexts == {x.p : x \in {y \in Range(line) : y.p.k = "booktext"}}
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t",
            "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N",
            "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
RECURSIVE FromWord(_)
FromWord(s) == IF s = "" \/ Char(s, 1) \in (Letters \cup Digits \cup {" ", "[", "{", "("}) THEN s
               ELSE FromWord(DropFirst(s))
CutTitle(s, t) == LET i == Index(s, t)
                  IN Strip(SubSeq(s, 1, i - 1)) \o " " \o Strip(FromWord(SubSeq(s, i + Len(t), Len(s))))
Known(cit) == \E i \in DOMAIN cit : cit[i].type \in {"BOOK", "JOURNAL", "DOI", "ISBN"}
YearOf(cit) == LET is == {i \in DOMAIN cit : cit[i].type = "YEAR"}
               IN IF is = {} THEN "" ELSE cit[CHOOSE i \in is : TRUE].v
BookIn(cit) ==
  IF Known(cit) THEN cit
  ELSE LET hits == {x \in (DOMAIN cit) \X BookTexts : HasSub(cit[x[1]].misc, x[2].t) /\ x[2].year = YearOf(cit)}
       IN IF hits = {} THEN cit
          ELSE LET x == CHOOSE h \in hits : \A g \in hits : h[1] <= g[1]
               IN Append([cit EXCEPT ![x[1]].misc = CutTitle(@, x[2].t)],
                         [El("BOOK", "", x[2].v, 0) EXCEPT !.year = x[2].year])
Books == /\ phase = "books" /\ phase' = "dedupe"
         /\ cits' = [i \in DOMAIN cits |-> BookIn(cits[i])]
         /\ UNCHANGED <<line, misc, prev, split, tail, records>>

(* -------------------------------------------------------------- records *)
FieldOf == [AUTH |-> "author", REPORTNUMBER |-> "reportnumber", ARXIV |-> "reportnumber", DOI |-> "doi",
            URL |-> "url", HDL |-> "hdl", QUOTED |-> "title", BOOK |-> "title", ISBN |-> "isbn",
            PUBLISHER |-> "publisher", COLLABORATION |-> "collaboration", YEAR |-> "year"]
Edge == {".", ",", " ", "[", "]", "(", ")", "{", "}"}
MiscPairs(m) == IF StripSet(m, Edge) = "" THEN <<>>
                ELSE <<<<"misc", RStripSet(LStripSet(m, {"]", ")", "}", " ", ",", "."}), {"[", "(", "{", " ", ",", "."})>>>>
Pairs(e) ==
  MiscPairs(e.misc) \o
  CASE e.type = "MISC" -> <<>>
    [] e.type = "JOURNAL" ->
         <<<<"journal_title", e.title>>, <<"journal_volume", e.vol>>>> \o
         (IF e.year = "" THEN <<>> ELSE <<<<"journal_year", e.year>>>>) \o
         <<<<"journal_page", e.page>>,
           <<"journal_reference", e.title \o " " \o e.vol \o " (" \o e.year \o ") " \o e.page>>>>
    [] e.type = "URL" /\ e.title # "" -> <<<<"url", e.v>>, <<"urldesc", e.title>>>>   \* a link with a text
    [] OTHER -> <<<<FieldOf[e.type], e.v>>>>
RecordOf(cit) == FlattenSeq([i \in DOMAIN cit |-> Pairs(cit[i])])

(* surplus authors are kept as text, repeated collaborations dropped *)
FirstOf(cit, i) == \A j \in 1..(i - 1) : ~(cit[j].type = cit[i].type /\ (cit[i].type = "COLLABORATION" => cit[j].v = cit[i].v))
Dedup(cit) == [i \in DOMAIN cit |->
                 IF FirstOf(cit, i) THEN cit[i]
                 ELSE CASE cit[i].type = "AUTH" -> MiscEl(cit[i].misc \o " " \o cit[i].v)
                        [] cit[i].type \in {"COLLABORATION", "DOI"} -> MiscEl(cit[i].misc)
                        [] OTHER -> cit[i]]
Dedupe == /\ phase = "dedupe" /\ phase' = "done"
          /\ cits' = [i \in DOMAIN cits |-> Dedup(cits[i])]
          /\ records' = [i \in DOMAIN cits |-> RecordOf(cits'[i])]
          /\ UNCHANGED <<line, misc, prev, split, tail>>

Init == /\ phase = "read" /\ line = <<>> /\ misc = "" /\ prev = NoJournal /\ split = EmptySplit
        /\ cits = <<>> /\ tail = "" /\ records = <<>>
Next == (\E p \in Pieces, s \in Seps \cup Leads : Read(p, s)) \/ (\E t \in Tails : Close(t)) \/ Ibids \/ Years \/ Books \/ Dedupe
LongNext == (\E p \in Pieces, s \in Seps \cup Leads : Read(p, s))
            \/ (Len(line) = MaxPieces /\ \E t \in Tails : Close(t)) \/ Ibids \/ Years \/ Books \/ Dedupe

LineText == ConcatAll([i \in DOMAIN line |-> line[i].s \o line[i].p.t]) \o tail

(* ------------------------------------------------------------ properties *)
Count(r, f) == Cardinality({i \in DOMAIN r : r[i][1] = f})
Values(f) == FlattenSeq([i \in DOMAIN records |-> SelectSeq(records[i], LAMBDA x : x[1] = f)])
PieceCount(k) == Cardinality({i \in DOMAIN line : line[i].p.k = k})

(* C14 *)
OnePerRecord == phase = "done" => \A i \in DOMAIN records :
  \A f \in {"author", "doi", "year", "journal_title"} : Count(records[i], f) <= 1
NoRepeatedCollaboration == phase = "done" => \A i \in DOMAIN records :
  \A a, b \in DOMAIN records[i] : (records[i][a] = records[i][b] /\ records[i][a][1] = "collaboration") => a = b
(* C11: nothing recognised is lost or invented *)
NoneLost == phase = "done" =>
  /\ Len(Values("doi")) = PieceCount("DOI")
  /\ Len(Values("url")) = PieceCount("URL")
  /\ Len(Values("hdl")) = PieceCount("HDL")
  /\ Len(Values("title")) >= PieceCount("QUOTED") + PieceCount("BOOK")
  /\ Len(Values("title")) <= PieceCount("QUOTED") + PieceCount("BOOK") + PieceCount("booktext")
  /\ Len(Values("isbn")) = PieceCount("ISBN")
  /\ Len(Values("publisher")) = PieceCount("PUBLISHER")
  /\ Len(Values("reportnumber")) = PieceCount("REPORTNUMBER") + PieceCount("ARXIV")
  /\ Len(Values("journal_title")) <= PieceCount("JOURNAL") + PieceCount("ibid") + PieceCount("num")
  /\ Len(Values("journal_title")) >= PieceCount("JOURNAL")
(* every author is reported, as an author or as text *)
AuthorsKept == phase = "done" =>
  \A i \in DOMAIN line : line[i].p.k = "AUTH" =>
     \E r \in Range(records) : \E x \in Range(r) :
        (x[1] = "author" /\ x[2] = line[i].p.v) \/ (x[1] = "misc" /\ HasSub(x[2], RStripSet(line[i].p.v, Edge)))
(* C12: never two of a kind in one record unless adjacent report numbers / collaborations *)
SplitWhereRepeated == phase = "done" => \A i \in DOMAIN cits :
  \A ty \in {"JOURNAL", "ARXIV", "DOI", "URL", "QUOTED", "ISBN", "HDL", "PUBLISHER"} :
     Cardinality({j \in DOMAIN cits[i] : cits[i][j].type = ty}) <= 1
NoEmptyRecord == phase = "done" => (Len(records) > 1 => \A r \in Range(records) : r # <<>>)
(* C13: nothing is made up *)
NoJournalInvented == phase = "done" =>
  (PieceCount("JOURNAL") = 0 => Values("journal_title") = <<>>)

Emit == phase = "done" =>
  PrintT("@@" \o ToJson([line |-> Marker \o LineText, records |-> records]))
=============================================================================
