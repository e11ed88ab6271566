------------------------------- MODULE History -------------------------------
(* The command history: what typing at the shell records, and what !, !!, run and edit make of it.

   Each workspace has its own history, which outlives the shell. A command is a string; line feeds in it
   are line breaks typed with Alt-Enter. Commands are numbered from 0, the oldest, as they are recorded.
   What is run is observed through commands which note that they were run: an external program `say`, and
   `history`, whose output is noted item by item.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
Gap == {" ", "\n"}
RECURSIVE WordsFrom(_, _, _)
WordsFrom(s, i, w) ==
  IF i > Len(s) THEN (IF w = "" THEN <<>> ELSE <<w>>)
  ELSE IF Ch(s, i) \in Gap THEN (IF w = "" THEN <<>> ELSE <<w>>) \o WordsFrom(s, i + 1, "")
  ELSE WordsFrom(s, i + 1, w \o Ch(s, i))
Words(s) == WordsFrom(s, 1, "")
RECURSIVE Joined(_)
Joined(ws) == IF Len(ws) = 0 THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Joined(Tail(ws))
From(ws, n) == SubSeq(ws, n, Len(ws))
Digit == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CHOOSE n \in 0..9 : ToString(n) = d]
IsNumber(w) == Len(w) \in 1..4 /\ \A i \in 1..Len(w) : Ch(w, i) \in DOMAIN Digit
RECURSIVE Number(_)
Number(w) == IF w = "" THEN 0 ELSE 10 * Number(SubSeq(w, 1, Len(w) - 1)) + Digit[Ch(w, Len(w))]
Contains(s, w) == \E i \in 0..(Len(s) - Len(w)) : SubSeq(s, i + 1, i + Len(w)) = w

Set(f, k, v) == (k :> v) @@ f
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]

-------------------------------------------------------------------------------
(* State. hist: workspace -> commands recorded, oldest first. did: what was noted. fresh: no command was
   typed yet to the reader which is at work. known: FALSE when something unspecified happened.            *)
New == [hist |-> ("" :> <<>>), cur |-> "", did |-> <<>>, fresh |-> TRUE, ended |-> FALSE, known |-> TRUE]
Begun(st) == [st EXCEPT !.cur = "", !.fresh = TRUE, !.ended = FALSE]
Hist(st) == st.hist[st.cur]
Last(h) == h[Len(h)]
None == "\n"                 \* no command: nothing can be typed that is this

\* The command which is the n-th, or the last; None if there is none
Nth(h, n) == IF n + 1 \in 1..Len(h) THEN h[n + 1] ELSE None
Latest(h) == IF h = <<>> THEN None ELSE Last(h)

\* The editor of these sessions adds a word to the text
Edited(s) == s \o " ed"

(* What is typed, or what takes its place *)
Strip(s) == LET idx == {i \in 1..Len(s) : Ch(s, i) \notin Gap} IN
            IF idx = {} THEN "" ELSE LET a == CHOOSE i \in idx : \A j \in idx : i <= j
                                         b == CHOOSE i \in idx : \A j \in idx : i >= j IN SubSeq(s, a, b)
Starts(s, w) == Len(s) >= Len(w) /\ SubSeq(s, 1, Len(w)) = w
Recalled(h, ws) ==           \* ws: what follows !
  IF ws = <<>> THEN Latest(h)
  ELSE IF Len(ws) = 1 /\ IsNumber(ws[1]) THEN Nth(h, Number(ws[1]))
  ELSE None
Replacement(h, text) ==
  LET s == Strip(text) ws == Words(text) IN
  IF Starts(s, "!!") THEN (IF s = "!!" THEN Latest(h) ELSE None)
  ELSE IF Starts(s, "!") THEN Recalled(h, Words(SubSeq(s, 2, Len(s))))
  ELSE IF ws # <<>> /\ ws[1] = "edit" /\ (Len(ws) = 1 \/ IsNumber(ws[2]))
       THEN LET c == Recalled(h, From(ws, 2)) IN IF c = None THEN None ELSE Edited(c)
  ELSE None
Entered(h, text) == LET r == Replacement(h, text) IN IF r = None THEN text ELSE r

Recorded(h, text) == IF text = "" \/ (h # <<>> /\ Last(h) = text) THEN h ELSE Append(h, text)

-------------------------------------------------------------------------------
(* What history reports: the numbers and commands selected by its arguments, oldest first *)
Selected(h, word, n) ==
  LET ids == SelectSeq([i \in 1..Len(h) |-> i], LAMBDA i : Contains(h[i], word))
      k == IF n < 0 \/ n > Len(ids) THEN Len(ids) ELSE n
  IN [i \in 1..k |-> LET id == ids[Len(ids) - k + i] IN "h " \o ToString(id - 1) \o " " \o h[id]]
RECURSIVE HistoryArgs(_, _)
\* the arguments up to the pipe; word, n (-1: all, -2: not given), ok
HistoryArgs(ws, a) ==
  IF ws = <<>> THEN [a EXCEPT !.ok = FALSE]
  ELSE IF ws[1] = "|" THEN [a EXCEPT !.ok = @ /\ ws = <<"|", "map", "(h:", "note(h))">>]
  ELSE IF ws[1] \in {"-a", "--all"} THEN HistoryArgs(Tail(ws), [a EXCEPT !.ok = @ /\ a.n = -2, !.n = -1])
  ELSE IF ws[1] \in {"-c", "--command"} /\ Len(ws) > 1 THEN HistoryArgs(From(ws, 3), [a EXCEPT !.ok = @ /\ a.word = "", !.word = ws[2]])
  ELSE IF IsNumber(ws[1]) THEN HistoryArgs(Tail(ws), [a EXCEPT !.ok = @ /\ a.n = -2 /\ Number(ws[1]) > 0, !.n = Number(ws[1])])
  ELSE [a EXCEPT !.ok = FALSE]

IsSpaceName(w) == w \in {"A", "B"}
Named(st) == DOMAIN st.hist \ {""}
Note(st, items) == [st EXCEPT !.did = @ \o items]
Moved(st, name) == [st EXCEPT !.cur = name, !.fresh = TRUE]

RECURSIVE Exec(_, _, _)
\* text: the command, which is number `at` of the history. It can rerun only commands before it.
Exec(st, text, at) ==
  LET ws == Words(text)
      h == Hist(st)
      s == Strip(text)
      Rerun(n) == IF n \in 0..(at - 1) THEN Exec(st, h[n + 1], n) ELSE st
  IN
  IF ws = <<>> THEN st
  ELSE IF ws[1] \in {"say", "editx"} THEN Note(st, <<Joined(ws)>>)
  ELSE IF ws[1] = "history" THEN
    LET a == HistoryArgs(Tail(ws), [word |-> "", n |-> -2, ok |-> TRUE]) IN
    IF a.ok THEN Note(st, Selected(h, a.word, IF a.n = -2 THEN 20 ELSE a.n)) ELSE st
  ELSE IF ws[1] = "run" THEN
    (IF Len(ws) = 1 THEN Rerun(at - 1)
     ELSE IF Len(ws) = 2 /\ IsNumber(ws[2]) THEN Rerun(Number(ws[2]))
     ELSE st)
  ELSE IF Starts(s, "!!") THEN (IF s = "!!" THEN Rerun(at - 1) ELSE st)
  ELSE IF Starts(s, "!") THEN
    LET r == Words(SubSeq(s, 2, Len(s))) IN
    IF Len(r) = 1 /\ IsNumber(r[1]) THEN Rerun(Number(r[1])) ELSE st
  ELSE IF ws[1] = "ws" THEN
    (IF Len(ws) = 2 /\ ws[2] = "-c" THEN (IF st.cur = "" THEN st ELSE Moved(st, ""))
     ELSE IF Len(ws) = 2 /\ IsSpaceName(ws[2]) THEN
       (IF ws[2] = st.cur \/ ws[2] \notin Named(st) THEN st ELSE Moved(st, ws[2]))
     ELSE IF Len(ws) = 3 /\ ws[2] = "-n" /\ IsSpaceName(ws[3]) THEN
       (IF ws[3] \in Named(st) THEN st ELSE Moved([st EXCEPT !.hist = Set(@, ws[3], <<>>)], ws[3]))
     ELSE IF Len(ws) = 3 /\ ws[2] = "-d" /\ IsSpaceName(ws[3]) THEN
       (IF ws[3] \in Named(st) /\ ws[3] # st.cur THEN [st EXCEPT !.hist = Without(@, {ws[3]})] ELSE st)
     ELSE st)
  ELSE IF ws = <<"exit">> THEN [st EXCEPT !.ended = TRUE]
  ELSE st

(* Typing text and Enter *)
Type(st, text) ==
  LET h == Hist(st)
      e == Entered(h, text)
      s1 == [st EXCEPT !.hist = Set(@, st.cur, Recorded(h, e)), !.fresh = FALSE,
                       \* whether a command is compared with one recorded before the shell was started is not specified
                       !.known = @ /\ ~(st.fresh /\ h # <<>> /\ e # "" /\ Last(h) = e)]
  IN Exec(s1, e, Len(Hist(s1)) - 1)
=============================================================================
