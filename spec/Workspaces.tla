---- MODULE Workspaces ----
(* Workspaces, and the processes (shells) using them.

   A workspace has variables and a home, kept on disk; stored streams have files of their own, which are
   written when the stream is. A process has one workspace open: a named one, which no other process can
   have, or the default one, whose variables are its own. Operations take several steps, so that those of
   different processes interleave, and a process can die between (or in) any two of them. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, Names, Vars

VARIABLES disk,   \* disk[n]: [ex, vars, home], what was saved
          rf,     \* rf[n][v]: number of rows in the file of stream v of n; -1: no file; -2: not determined
          hold,   \* hold[n]: the process which has n, or 0
          torn,   \* names whose creation or deletion was cut short
          up,     \* up[p]: the process is running
          cur,    \* cur[p]: name of the open workspace, "" for the default one
          mem,    \* mem[p]: variables of the open workspace
          dmem,   \* dmem[p]: variables of p's default workspace, while another is open
          drf,    \* drf[p][v]: as rf, for the default workspace of p
          pend,   \* pend[p]: [op, st], the operation being carried out, and what is next
          res     \* res[p]: outcome of the operation, see Result

vars == <<disk, rf, hold, torn, up, cur, mem, dmem, drf, pend, res>>

Blank == [v \in Vars |-> "none"]
NoFiles == [v \in Vars |-> -1]
Idle == [op |-> [op |-> "idle"], st |-> "idle"]
Result(ref) == [refused |-> ref, damaged |-> {}, list |-> {}, vals |-> <<>>, ident |-> <<"", "">>]
NoResult == Result(FALSE)

Init == /\ disk = [n \in Names |-> [ex |-> FALSE, vars |-> Blank, home |-> ""]]
        /\ rf = [n \in Names |-> NoFiles] /\ hold = [n \in Names |-> 0] /\ torn = {}
        /\ up = [p \in Procs |-> FALSE] /\ cur = [p \in Procs |-> ""]
        /\ mem = [p \in Procs |-> Blank] /\ dmem = [p \in Procs |-> Blank] /\ drf = [p \in Procs |-> NoFiles]
        /\ pend = [p \in Procs |-> Idle] /\ res = [p \in Procs |-> NoResult]

\* --- values of variables: "none", a token, or "r": a stream, whose file tells
FileOf(p, v) == IF cur[p] = "" THEN drf[p][v] ELSE rf[cur[p]][v]
Worth(p, v) == IF mem[p][v] # "r" THEN mem[p][v]
               ELSE IF FileOf(p, v) = -2 THEN "?"
               ELSE IF FileOf(p, v) = -1 THEN "gone"
               ELSE "r" \o ToString(FileOf(p, v))
SetFile(p, v, k) == IF cur[p] = "" THEN drf' = [drf EXCEPT ![p][v] = k] /\ UNCHANGED rf
                    ELSE rf' = [rf EXCEPT ![cur[p]][v] = k] /\ UNCHANGED drf

\* --- steps
Begin(p, o) ==
  /\ pend[p].st = "idle"
  /\ up[p] # (o.op = "start")
  /\ pend' = [pend EXCEPT ![p] = [op |-> o, st |-> "begin"]]
  /\ res' = [res EXCEPT ![p] = NoResult]
  /\ UNCHANGED <<disk, rf, hold, torn, up, cur, mem, dmem, drf>>

Goto(p, st) == pend' = [pend EXCEPT ![p].st = st]
Refuse(p) == /\ Goto(p, "done") /\ res' = [res EXCEPT ![p] = Result(TRUE)]
             /\ UNCHANGED <<disk, rf, hold, torn, up, cur, mem, dmem, drf>>

BeginStep(p) ==
  LET o == pend[p].op IN
  /\ pend[p].st = "begin"
  /\ CASE o.op = "start" -> /\ up' = [up EXCEPT ![p] = TRUE] /\ cur' = [cur EXCEPT ![p] = ""]
                            /\ mem' = [mem EXCEPT ![p] = Blank] /\ dmem' = [dmem EXCEPT ![p] = Blank]
                            /\ drf' = [drf EXCEPT ![p] = NoFiles]
                            /\ Goto(p, "validate") /\ UNCHANGED <<disk, rf, hold, torn, res>>
       [] o.op = "new" -> IF o.n \notin Names \/ disk[o.n].ex THEN Refuse(p)
                          ELSE /\ disk' = [disk EXCEPT ![o.n] = [ex |-> TRUE, vars |-> Blank, home |-> ""]]
                               /\ rf' = [rf EXCEPT ![o.n] = NoFiles] /\ torn' = torn \ {o.n}
                               /\ Goto(p, "lock") /\ UNCHANGED <<hold, up, cur, mem, dmem, drf, res>>
       [] o.op = "open" -> IF o.n \notin Names THEN Refuse(p)
                           ELSE IF ~disk[o.n].ex THEN Refuse(p)
                           ELSE /\ Goto(p, IF o.n = cur[p] THEN "done" ELSE "lock")
                                /\ UNCHANGED <<disk, rf, hold, torn, up, cur, mem, dmem, drf, res>>
       [] o.op = "close" -> /\ Goto(p, IF cur[p] = "" THEN "done" ELSE "save")
                            /\ UNCHANGED <<disk, rf, hold, torn, up, cur, mem, dmem, drf, res>>
       [] o.op = "exit" -> Goto(p, "save") /\ UNCHANGED <<disk, rf, hold, torn, up, cur, mem, dmem, drf, res>>
       [] o.op = "delete" -> IF o.n \notin Names THEN Refuse(p)
                             ELSE IF o.n = cur[p] \/ ~disk[o.n].ex \/ hold[o.n] # 0 THEN Refuse(p)
                             ELSE /\ disk' = [disk EXCEPT ![o.n] = [ex |-> FALSE, vars |-> Blank, home |-> ""]]
                                  /\ rf' = [rf EXCEPT ![o.n] = NoFiles]
                                  /\ Goto(p, "done") /\ UNCHANGED <<hold, torn, up, cur, mem, dmem, drf, res>>
       [] o.op = "home" -> IF cur[p] = "" THEN Refuse(p)
                           ELSE /\ disk' = [disk EXCEPT ![cur[p]].home = o.d]
                                /\ Goto(p, "done") /\ UNCHANGED <<rf, hold, torn, up, cur, mem, dmem, drf, res>>
       [] o.op = "list" -> /\ res' = [res EXCEPT ![p].list = {<<n, disk[n].home>> : n \in {m \in Names : disk[m].ex}}]
                           /\ Goto(p, "done") /\ UNCHANGED <<disk, rf, hold, torn, up, cur, mem, dmem, drf>>
       [] o.op = "probe" -> /\ res' = [res EXCEPT ![p].vals = [v \in Vars |-> Worth(p, v)],
                                                  ![p].ident = <<cur[p], IF cur[p] = "" THEN "" ELSE disk[cur[p]].home>>]
                            /\ Goto(p, "done") /\ UNCHANGED <<disk, rf, hold, torn, up, cur, mem, dmem, drf>>
       [] o.op = "set" -> /\ mem' = [mem EXCEPT ![p][o.v] = o.val] /\ SetFile(p, o.v, -1)
                          /\ Goto(p, "done") /\ UNCHANGED <<disk, hold, torn, up, cur, dmem, res>>
       [] o.op = "unset" -> /\ mem' = [mem EXCEPT ![p][o.v] = "none"] /\ SetFile(p, o.v, -1)
                            /\ res' = [res EXCEPT ![p].refused = mem[p][o.v] = "none"]
                            /\ Goto(p, "done") /\ UNCHANGED <<disk, hold, torn, up, cur, dmem>>
       [] o.op = "store" -> LET old == IF mem[p][o.v] = "r" THEN FileOf(p, o.v) ELSE 0 IN
                            IF o.app /\ mem[p][o.v] \notin {"none", "r"} THEN Refuse(p)
                            ELSE /\ mem' = [mem EXCEPT ![p][o.v] = "r"]
                                 /\ SetFile(p, o.v, IF ~o.app THEN o.k ELSE IF old = -2 THEN -2 ELSE IF old = -1 THEN o.k ELSE old + o.k)
                                 /\ Goto(p, "done") /\ UNCHANGED <<disk, hold, torn, up, cur, dmem, res>>

Lock(p) ==
  LET o == pend[p].op IN
  /\ pend[p].st = "lock"
  /\ IF disk[o.n].ex /\ hold[o.n] \in {0, p}
     THEN /\ hold' = [hold EXCEPT ![o.n] = p] /\ Goto(p, "save")
          /\ UNCHANGED <<disk, rf, torn, up, cur, mem, dmem, drf, res>>
     ELSE Refuse(p)

\* The current workspace is saved and given up.
Save(p) ==
  LET o == pend[p].op IN
  /\ pend[p].st = "save"
  /\ IF cur[p] = "" THEN dmem' = [dmem EXCEPT ![p] = mem[p]] /\ UNCHANGED <<disk, hold>>
     ELSE /\ disk' = [disk EXCEPT ![cur[p]].vars = mem[p]]
          /\ hold' = [hold EXCEPT ![cur[p]] = 0]
          /\ UNCHANGED dmem
  /\ IF o.op = "exit" THEN Goto(p, "done") /\ up' = [up EXCEPT ![p] = FALSE] /\ cur' = [cur EXCEPT ![p] = ""]
     ELSE Goto(p, "load") /\ UNCHANGED <<up, cur>>
  /\ UNCHANGED <<rf, torn, mem, drf, res>>

Load(p) ==
  LET o == pend[p].op
      n == IF o.op = "close" THEN "" ELSE o.n IN
  /\ pend[p].st = "load"
  /\ cur' = [cur EXCEPT ![p] = n]
  /\ mem' = [mem EXCEPT ![p] = IF n = "" THEN dmem[p] ELSE disk[n].vars]
  /\ Goto(p, "validate")
  /\ UNCHANGED <<disk, rf, hold, torn, up, dmem, drf, res>>

\* A shell which starts, or changes its workspace, looks at all of them: What was torn turns out to be complete,
\* or is set aside.
Validate(p) ==
  /\ pend[p].st = "validate"
  /\ \E back \in SUBSET torn :
       /\ disk' = [n \in Names |-> IF n \in back THEN [disk[n] EXCEPT !.ex = TRUE]
                                   ELSE IF n \in torn THEN [ex |-> FALSE, vars |-> Blank, home |-> ""] ELSE disk[n]]
       /\ rf' = [n \in Names |-> IF n \in torn \ back THEN NoFiles ELSE rf[n]]
       /\ res' = [res EXCEPT ![p].damaged = torn \ back]
  /\ torn' = {}
  /\ Goto(p, "done")
  /\ UNCHANGED <<hold, up, cur, mem, dmem, drf>>

Step(p) == BeginStep(p) \/ Lock(p) \/ Save(p) \/ Load(p) \/ Validate(p)

End(p) == /\ pend[p].st = "done"
          /\ pend' = [pend EXCEPT ![p] = Idle]
          /\ UNCHANGED <<disk, rf, hold, torn, up, cur, mem, dmem, drf, res>>

\* What the death of p cuts short
Crash(p) ==
  LET o == pend[p].op
      cut == pend[p].st = "begin" IN
  /\ (up[p] \/ pend[p].st # "idle")
  /\ pend' = [pend EXCEPT ![p] = Idle]
  /\ up' = [up EXCEPT ![p] = FALSE] /\ cur' = [cur EXCEPT ![p] = ""]
  /\ mem' = [mem EXCEPT ![p] = Blank] /\ dmem' = [dmem EXCEPT ![p] = Blank] /\ drf' = [drf EXCEPT ![p] = NoFiles]
  /\ hold' = [n \in Names |-> IF hold[n] = p THEN 0 ELSE hold[n]]
  /\ res' = [res EXCEPT ![p] = NoResult]
  /\ IF cut /\ o.op \in {"new", "delete"} /\ o.n \in Names
     THEN \/ UNCHANGED <<disk, torn, rf>>
          \/ /\ (o.op = "new") = ~disk[o.n].ex
             /\ o.op = "delete" => hold[o.n] = 0
             /\ torn' = torn \union {o.n}
             /\ disk' = [disk EXCEPT ![o.n] = IF o.op = "new" THEN [ex |-> FALSE, vars |-> Blank, home |-> ""] ELSE [@ EXCEPT !.ex = FALSE]]
             /\ UNCHANGED rf
     ELSE IF cut /\ o.op \in {"store", "set", "unset"} /\ cur[p] # ""
     THEN \/ UNCHANGED <<disk, torn, rf>>
          \/ rf' = [rf EXCEPT ![cur[p]][o.v] = -2] /\ UNCHANGED <<disk, torn>>
     ELSE UNCHANGED <<disk, torn, rf>>

\* --- what has to be true
TypeOK == /\ \A n \in Names : hold[n] \in Procs \union {0}
          /\ \A p \in Procs : cur[p] \in Names \union {""}
\* W01
Exclusive == \A p \in Procs : cur[p] # "" /\ up[p] /\ pend[p].st \notin {"load", "validate"} =>
                                /\ disk[cur[p]].ex /\ hold[cur[p]] = p
                                /\ \A q \in Procs \ {p} : ~(up[q] /\ cur[q] = cur[p] /\ pend[q].st # "load")
\* W02: nothing is in use for ever: only processes which run hold anything
HeldByLiving == \A n \in Names : hold[n] # 0 => up[hold[n]]
\* what exists is not being torn
TornIsGone == \A n \in torn : ~disk[n].ex
\* N03, W02: what is saved changes only when the process which has the workspace closes it, or it is created or deleted
Changers(n) == \E p \in Procs : /\ pend[p].st # "idle"
                                /\ \/ cur[p] = n /\ hold[n] = p /\ pend[p].st = "save"
                                   \/ pend[p].op.op \in {"new", "delete"} /\ pend[p].st = "begin" /\ pend[p].op.n = n
                                   \/ n \in torn /\ pend[p].st = "validate"
SavedByOwner == [][\A n \in Names : disk'[n].vars # disk[n].vars => Changers(n)]_vars
\* a process which is refused keeps its workspace and variables
RefusedKeeps == [][\A p \in Procs : res'[p].refused /\ ~res[p].refused /\ pend[p].op.op # "unset" =>
                       cur'[p] = cur[p] /\ mem'[p] = mem[p]]_vars
=============================================================================
