------------------------------------------------------------------------------ MODULE BashTrace ------------------------------------------------------------------------------
(* Judges what was recorded when the shell ran pipelines with external programs (lib/programs.py): the units which the
   pipeline got from the program, and the program from the pipeline, against Run of Bash.tla; the lines which texts
   arrived as; and the words that programs got as arguments.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANTS MaxSteps, MaxRows, Cap, Naive
B == INSTANCE Bash WITH prog <- <<>>, n <- 0, upfail <- FALSE, downfail <- 0, pc <- 0, seen <- 0, rd <- FALSE, held <- <<>>,
                        alive <- FALSE, left <- FALSE, inq <- <<>>, inopen <- FALSE, outq <- <<>>, errq <- <<>>,
                        outopen <- FALSE, sent <- 0, main <- "", out <- <<>>, err <- <<>>
Cases == JsonDeserialize(IOEnv.BASH_TRACE)

(* ---------------------------------------------------------------- pipelines *)
Repeat(s, k) == FlattenSeq([j \in 1..k |-> s])
PipeVerdict(c) ==
  LET e == B!Run(c.prog, c.n)
      none == ~c.reported /\ c.runs = <<>> /\ c.out = <<>> /\ c.err = <<>> /\ c.n = 0 /\ ~c.first /\ ~c.upfail IN   \* no rows: it may not be run at all
  IF c.hang THEN "hang: the command did not terminate"
  ELSE IF c.crash THEN "crash: the command ended abnormally"
  ELSE IF ~c.usable THEN "session: not usable after the command"
  ELSE IF none THEN ""
  ELSE IF c.upfail \/ c.downfail \in 1..Len(e.out)
  THEN IF ~c.reported THEN "report: the failure of an operator is not reported"
       ELSE IF ~IsPrefix(c.out, e.out) THEN "prefix: delivered something else than the first lines printed"
       ELSE IF c.downfail > 0 /\ Len(c.out) > c.downfail THEN "stop: rows delivered after the failure"
       ELSE ""
  ELSE IF c.reported THEN "report: a failure is reported although nothing failed"
  ELSE IF Len(c.runs) # c.times THEN "runs: the program ran " \o ToString(Len(c.runs)) \o " times"
  ELSE IF c.out # Repeat(e.out, c.times) THEN "output: the rows delivered are not the lines printed"
  ELSE IF c.err # Repeat(e.err, c.times) THEN "errors: the errors delivered are not the lines printed to stderr"
  ELSE IF \E k \in 1..Len(c.runs) : c.runs[k].units # [j \in 1..e.seen |-> <<"in", j>>]
       THEN "input: the lines seen by the program are not the rows"
  ELSE IF \E k \in 1..Len(c.runs) : c.runs[k].eof # e.eof THEN "eof: end of input"
  ELSE ""

(* ---------------------------------------------------------------- texts: sequences of code points *)
RECURSIVE SplitLines(_, _, _)
SplitLines(t, k, cur) ==
  IF k > Len(t) THEN <<cur>>
  ELSE IF t[k] = 10 THEN <<cur>> \o SplitLines(t, k + 1, <<>>)
  ELSE SplitLines(t, k + 1, Append(cur, t[k]))
(* Rows: what a program reads for a row is the text of its value, if there is one value; otherwise that of all of it, as
   in expressions. v.k: s (a text), i (an integer), none, t (a tuple), l (a list). *)
RECURSIVE Dec(_), ReprAll(_), ReprOf(_)
Dec(m) == IF m < 0 THEN <<45>> \o Dec(0 - m) ELSE IF m < 10 THEN <<48 + m>> ELSE Dec(m \div 10) \o <<48 + (m % 10)>>
ReprOf(v) == IF v.k = "s" THEN <<39>> \o v.s \o <<39>>
             ELSE IF v.k = "i" THEN Dec(v.n)
             ELSE IF v.k = "none" THEN <<78, 111, 110, 101>>
             ELSE IF v.k = "l" THEN <<91>> \o ReprAll(v.of) \o <<93>>
             ELSE <<40>> \o ReprAll(v.of) \o (IF Len(v.of) = 1 THEN <<44>> ELSE <<>>) \o <<41>>
ReprAll(vs) == IF vs = <<>> THEN <<>> ELSE ReprOf(vs[1]) \o (IF Len(vs) = 1 THEN <<>> ELSE <<44, 32>> \o ReprAll(SubSeq(vs, 2, Len(vs))))
StrOf(v) == IF v.k = "s" THEN v.s ELSE ReprOf(v)
RowText(v) == IF v.k \in {"t", "l"} /\ Len(v.of) = 1 THEN StrOf(v.of[1]) ELSE StrOf(v)
TextVerdict(c) == IF c.hang \/ c.crash THEN "crash: the command did not complete"
                  ELSE IF c.out # FlattenSeq([j \in 1..Len(c.rows) |-> SplitLines(RowText(c.rows[j]), 1, <<>>)])
                  THEN "text: the lines that arrived are not those sent" ELSE ""

(* ---------------------------------------------------------------- arguments: words of the text
   Words are separated by blanks. A backslash stands for the character that follows. '...' is taken literally.
   In "...", a backslash has that meaning only before \ " $ `. An unquoted * stands for any characters, an unquoted ?
   for one; such a word is replaced by the names of the files that match, in order, if there are any.
   A word is a sequence of characters <<code, quoted>>.                                                             *)
SP == 32  TAB == 9  SQ == 39  DQ == 34  BS == 92  STAR == 42  QM == 63  DOT == 46
RECURSIVE Words(_, _, _, _, _)
Words(t, k, mode, cur, has) ==      \* mode: 0 outside of quotes, else the quote; has: a word has begun
  LET done == IF has THEN <<cur>> ELSE <<>> IN
  IF k > Len(t) THEN done
  ELSE LET x == t[k] IN
    IF mode = SQ THEN (IF x = SQ THEN Words(t, k + 1, 0, cur, TRUE) ELSE Words(t, k + 1, SQ, Append(cur, <<x, TRUE>>), TRUE))
    ELSE IF x = BS /\ k < Len(t) /\ (IF mode = DQ THEN t[k + 1] \in {BS, DQ, 36, 96} ELSE TRUE)
         THEN Words(t, k + 2, mode, Append(cur, <<t[k + 1], TRUE>>), TRUE)
    ELSE IF mode = DQ THEN (IF x = DQ THEN Words(t, k + 1, 0, cur, TRUE) ELSE Words(t, k + 1, DQ, Append(cur, <<x, TRUE>>), TRUE))
    ELSE IF x \in {SP, TAB} THEN done \o Words(t, k + 1, 0, <<>>, FALSE)
    ELSE IF x \in {SQ, DQ} THEN Words(t, k + 1, x, cur, TRUE)
    ELSE Words(t, k + 1, 0, Append(cur, <<x, FALSE>>), TRUE)

RECURSIVE Matches(_, _, _, _)
Matches(w, k, s, j) ==
  IF k > Len(w) THEN j > Len(s)
  ELSE IF w[k] = <<STAR, FALSE>> THEN \E i \in j..(Len(s) + 1) : Matches(w, k + 1, s, i)
  ELSE j <= Len(s) /\ (w[k] = <<QM, FALSE>> \/ w[k][1] = s[j]) /\ Matches(w, k + 1, s, j + 1)
IsPattern(w) == \E k \in 1..Len(w) : w[k] \in {<<STAR, FALSE>>, <<QM, FALSE>>}
Plain(w) == [k \in 1..Len(w) |-> w[k][1]]
Hidden(s) == Len(s) > 0 /\ s[1] = DOT
\* files: names in order
Expand(w, files) ==
  LET found == SelectSeq(files, LAMBDA s : Matches(w, 1, s, 1) /\ (Hidden(s) => w[1] = <<DOT, FALSE>> \/ w[1] = <<DOT, TRUE>>)) IN
  IF IsPattern(w) /\ found # <<>> THEN found ELSE <<Plain(w)>>
ArgsVerdict(c) ==
  LET ws == Words(c.text, 1, 0, <<>>, FALSE) IN
  IF c.hang \/ c.crash THEN "crash: the command did not complete"
  ELSE IF c.argv # FlattenSeq([j \in 1..Len(ws) |-> Expand(ws[j], c.files)]) THEN "words: the arguments are not the words of the text"
  ELSE ""

Verdict(c) == CASE c.kind = "pipe" -> PipeVerdict(c) [] c.kind = "text" -> TextVerdict(c) [] c.kind = "args" -> ArgsVerdict(c)
VARIABLE i
Init == i = 0
Next == /\ i < Len(Cases) /\ i' = i + 1
        /\ LET v == Verdict(Cases[i + 1]) IN IF v = "" THEN TRUE ELSE PrintT("VERDICT " \o ToJson([i |-> i + 1, v |-> v]))
Spec == Init /\ [][Next]_i
==============================================================================================================================================================================
