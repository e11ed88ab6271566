------------------------------------------------------------------------------ MODULE Bash ------------------------------------------------------------------------------
(* A pipeline with an external program in it. The shell writes the rows it has to a pipe of bounded capacity, the
   program prints to two other such pipes, and the shell passes on what it reads there. A unit is an amount of text
   which fills a pipe (capacity Cap = 1), or part of one (Cap > 1).

   A program is a sequence of steps:
     "r" reads one unit (nothing at the end of the input)    "R" reads to the end of the input
     "p" prints a unit                                       "e" prints a unit to stderr
     "c" copies one unit from input to output                "C" copies to the end of the input
     "x" closes its input                                    "b" leaves a process behind which has the output open
   It ends after its last step, and dies when it prints to a pipe that nobody reads.

   The shell may have to give up: rows k + 1, ... do not exist because the operator before the program failed
   (upfail), or the operator behind the program failed when it got unit k (downfail).                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxSteps, MaxRows, Cap, Naive    \* Naive: a shell which writes everything before it reads (sanity check)

Steps == {"r", "R", "p", "e", "c", "C", "x", "b"}

(* ---------------------------------------------------------------- what a program does with n units of input
   out, err: units printed. <<"in", k>> is the k-th unit of the input, <<"new", k>> the k-th one made up.
   seen: number of units read. eof: whether it has seen the end of the input.                                 *)
RECURSIVE Meaning(_, _, _, _)
Meaning(prog, n, k, s) ==
  IF k > Len(prog) THEN s
  ELSE LET more == s.open /\ s.seen < n
           p == prog[k] IN
       Meaning(prog, n, k + 1,
         CASE p = "r" -> IF more THEN [s EXCEPT !.seen = @ + 1] ELSE [s EXCEPT !.eof = s.eof \/ s.open]
           [] p = "R" -> IF s.open THEN [s EXCEPT !.seen = n, !.eof = TRUE] ELSE s
           [] p = "p" -> [s EXCEPT !.out = Append(@, <<"new", k>>)]
           [] p = "e" -> [s EXCEPT !.err = Append(@, <<"new", k>>)]
           [] p = "c" -> IF more THEN [s EXCEPT !.seen = @ + 1, !.out = Append(@, <<"in", s.seen + 1>>)]
                         ELSE [s EXCEPT !.eof = s.eof \/ s.open]
           [] p = "C" -> IF s.open THEN [s EXCEPT !.seen = n, !.eof = TRUE,
                                         !.out = @ \o [j \in 1..(n - s.seen) |-> <<"in", s.seen + j>>]]
                         ELSE s
           [] p = "x" -> [s EXCEPT !.open = FALSE]
           [] p = "b" -> s)
Run(prog, n) == Meaning(prog, n, 1, [out |-> <<>>, err |-> <<>>, seen |-> 0, open |-> TRUE, eof |-> FALSE])

(* ---------------------------------------------------------------- processes *)
VARIABLES prog, n, upfail, downfail,                   \* the case
          pc, seen, rd, held, alive, left,             \* the program: next step, input, what it is about to print
          inq, inopen, outq, errq, outopen,            \* the pipes
          sent, main, out, err                         \* the shell
vars == <<prog, n, upfail, downfail, pc, seen, rd, held, alive, left, inq, inopen, outq, errq, outopen, sent, main, out, err>>

Programs == UNION {[1..k -> Steps] : k \in 0..MaxSteps}
Init ==
  /\ prog \in Programs /\ n \in 0..MaxRows
  /\ upfail \in BOOLEAN
  /\ downfail \in 0..2      \* the operator behind fails at its k-th unit; 0: it does not
  /\ pc = 1 /\ seen = 0 /\ rd = TRUE /\ held = <<>> /\ alive = TRUE /\ left = FALSE
  /\ inq = <<>> /\ inopen = TRUE /\ outq = <<>> /\ errq = <<>> /\ outopen = TRUE
  /\ sent = 0 /\ main = "feed" /\ out = <<>> /\ err = <<>>

Case == UNCHANGED <<prog, n, upfail, downfail>>
Shell == UNCHANGED <<sent, main, out, err, inopen, outopen>>

Step == IF pc <= Len(prog) THEN prog[pc] ELSE "end"
Reads == Step \in {"r", "R", "c", "C"}
\* the program at a step which reads: gets a unit, or sees the end of the input
PRead ==
  /\ alive /\ held = <<>> /\ Reads /\ Case /\ Shell /\ UNCHANGED <<rd, alive, left, errq, outq>>
  /\ IF ~rd THEN /\ pc' = pc + 1 /\ UNCHANGED <<seen, held, inq>>
     ELSE IF Len(inq) > 0 THEN
          /\ inq' = Tail(inq) /\ seen' = seen + 1
          /\ held' = IF Step \in {"c", "C"} THEN <<"in", Head(inq)>> ELSE <<>>
          /\ pc' = IF Step \in {"R", "C"} \/ held' # <<>> THEN pc ELSE pc + 1
     ELSE /\ ~inopen /\ pc' = pc + 1 /\ UNCHANGED <<seen, held, inq>>
\* the program prints: to out what it holds or something new, to err something new
PPrint ==
  /\ alive /\ (held # <<>> \/ Step \in {"p", "e"}) /\ Case /\ Shell /\ UNCHANGED <<seen, rd, left>>
  /\ LET unit == IF held # <<>> THEN held ELSE <<"new", pc>>
         toerr == held = <<>> /\ Step = "e" IN
     IF ~outopen THEN /\ alive' = FALSE /\ inq' = <<>> /\ UNCHANGED <<pc, held, outq, errq>>      \* SIGPIPE
     ELSE /\ Len(IF toerr THEN errq ELSE outq) < Cap
          /\ IF toerr THEN errq' = Append(errq, unit) /\ UNCHANGED outq
                      ELSE outq' = Append(outq, unit) /\ UNCHANGED errq
          /\ held' = <<>> /\ pc' = (IF Step = "C" THEN pc ELSE pc + 1) /\ UNCHANGED <<alive, inq>>
POther ==
  /\ alive /\ held = <<>> /\ Step \in {"x", "b"} /\ Case /\ Shell /\ UNCHANGED <<seen, held, alive, outq, errq>>
  /\ pc' = pc + 1
  /\ IF Step = "x" THEN rd' = FALSE /\ inq' = <<>> /\ UNCHANGED left
                   ELSE left' = TRUE /\ UNCHANGED <<rd, inq>>
PEnd == /\ alive /\ held = <<>> /\ Step = "end" /\ Case /\ Shell /\ UNCHANGED <<pc, seen, rd, held, left, outq, errq>>
        /\ alive' = FALSE /\ inq' = <<>>
Program == PRead \/ PPrint \/ POther \/ PEnd

Prog == UNCHANGED <<pc, seen, rd, held, alive, left>>
\* rows there are for the program: if the operator before it fails, then all of them, but no regular end of input
MWrite ==
  /\ main = "feed" /\ sent < n /\ Case /\ Prog /\ UNCHANGED <<outq, errq, outopen, main, out, err, inopen>>
  /\ IF alive /\ rd THEN /\ Len(inq) < Cap /\ inq' = Append(inq, sent + 1) /\ sent' = sent + 1
     ELSE /\ sent' = sent + 1 /\ UNCHANGED inq      \* nobody reads: the row is dropped
MFed ==
  /\ main = "feed" /\ sent = n /\ Case /\ Prog /\ UNCHANGED <<inq, outq, errq, outopen, sent, out, err>>
  /\ inopen' = FALSE /\ main' = IF upfail THEN "discard" ELSE "drain"
MRead ==
  /\ main \in (IF Naive THEN {"drain", "discard"} ELSE {"feed", "drain", "discard"})
  /\ Case /\ Prog /\ UNCHANGED <<inq, sent>>
  /\ \E k \in 1..2 :
       LET q == IF k = 1 THEN outq ELSE errq IN
       /\ q # <<>>
       /\ IF k = 1 THEN outq' = Tail(q) /\ UNCHANGED errq ELSE errq' = Tail(q) /\ UNCHANGED outq
       /\ IF main = "discard" THEN UNCHANGED <<out, err, main, inopen, outopen>>
          ELSE /\ IF k = 1 THEN out' = Append(out, Head(q)) /\ UNCHANGED err
                           ELSE err' = Append(err, Head(q)) /\ UNCHANGED out
               /\ IF k = 1 /\ downfail > 0 /\ Len(out) + 1 = downfail
                  THEN main' = "failed" /\ inopen' = FALSE /\ outopen' = FALSE
                  ELSE UNCHANGED <<main, inopen, outopen>>
\* nothing is left to read, and the program has ended (perhaps leaving a process behind: its output is not waited for)
MEnd ==
  /\ main \in {"drain", "discard", "failed"} /\ ~alive
  /\ (main # "failed" => outq = <<>> /\ errq = <<>>)
  /\ main' = IF main = "drain" THEN "done" ELSE "aborted"
  /\ inopen' = FALSE /\ outopen' = FALSE
  /\ Case /\ Prog /\ UNCHANGED <<inq, outq, errq, sent, out, err>>
Main == MWrite \/ MFed \/ MRead \/ MEnd

Ended == main \in {"done", "aborted"}
Terminated == Ended /\ UNCHANGED vars
Next == Program \/ Main \/ Terminated
Spec == Init /\ [][Next]_vars /\ WF_vars(Program) /\ WF_vars(Main)

(* ---------------------------------------------------------------- properties *)
Expected == Run(prog, n)
InOrder == IsPrefix(out, Expected.out) /\ IsPrefix(err, Expected.err)
Complete == main = "done" => out = Expected.out /\ err = Expected.err /\ seen = Expected.seen
OnlyReported == main = "aborted" => upfail \/ downfail \in 1..Len(Expected.out)
Termination == <>Ended
==========================================================================================================================================================================
