-------------------------------- MODULE Jobs --------------------------------
(* Job control: commands run as jobs, in processes of their own; the shell waits for the one in the foreground.

   A job ends by itself once it has been released and is running, and then the variable it sets has its value in the
   shell. Job k sets the variable JobVar(k) to k; the commands of some jobs fail after that. A paused job does nothing
   until it is continued. A killed job changes nothing.

   hist records every action with what has to be seen after it: the listing (at the prompt), the state of every
   process, the variables.                                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxJobs, MaxLen, Vars

VARIABLES jobs,       \* live jobs, in the order of creation: [id, st]; st: "fg", "bg", "paused"
          next,       \* id of the next job
          released,   \* jobs free to end
          vars,       \* name -> id of the job that set it, 0 when undefined; -n: set by the shell to n
          ended,      \* jobs that ended by themselves, and killed ones
          killed,
          hist
vars_ == <<jobs, next, released, vars, ended, killed, hist>>
View == <<jobs, next, released, vars, ended, killed, Len(hist)>>

TwoVars == <<"a", "b">>
VarOf(id) == Vars[1 + ((id * id) % Len(Vars))]
Waiting == \E k \in 1..Len(jobs) : jobs[k].st = "fg"
Live == {jobs[k].id : k \in 1..Len(jobs)}
Without(js, id) == SelectSeq(js, LAMBDA j : j.id # id)
WithState(js, id, st) == [k \in 1..Len(js) |-> IF js[k].id = id THEN [js[k] EXCEPT !.st = st] ELSE js[k]]
StateOf(id) == LET k == CHOOSE k \in 1..Len(jobs) : jobs[k].id = id IN jobs[k].st

Init == /\ jobs = <<>> /\ next = 1 /\ released = {} /\ ended = {} /\ killed = {}
        /\ vars = [v \in {Vars[k] : k \in 1..Len(Vars)} |-> 0] /\ hist = <<>>

Log(act, id, arg) == hist' = Append(hist, [act |-> act, id |-> id, arg |-> arg, jobs |-> jobs', vars |-> vars', gone |-> ended' \cup killed'])

(* Job id is now running with js the jobs: it ends if it has been released. *)
Settle(js, id, rel) ==
  IF id \in rel
  THEN /\ jobs' = Without(js, id) /\ vars' = [vars EXCEPT ![VarOf(id)] = id] /\ ended' = ended \cup {id}
  ELSE jobs' = js /\ UNCHANGED <<vars, ended>>

Start(free) ==       \* free: the job doesn't wait to be released
  /\ ~Waiting /\ next <= MaxJobs
  /\ released' = IF free THEN released \cup {next} ELSE released
  /\ Settle(Append(jobs, [id |-> next, st |-> "fg"]), next, released')
  /\ next' = next + 1 /\ UNCHANGED killed /\ Log("start", next, IF free THEN 1 ELSE 0)
Release(id) ==
  /\ id \in Live \ released /\ released' = released \cup {id}
  /\ IF StateOf(id) = "paused" THEN UNCHANGED <<jobs, vars, ended>> ELSE Settle(jobs, id, released')
  /\ UNCHANGED <<next, killed>> /\ Log("release", id, 0)
CtrlZ == \* pauses the job in the foreground; others keep their states
  /\ jobs' = [k \in 1..Len(jobs) |-> IF jobs[k].st = "fg" THEN [jobs[k] EXCEPT !.st = "paused"] ELSE jobs[k]]
  /\ UNCHANGED <<next, released, vars, ended, killed>> /\ Log("ctrlz", 0, 0)
CtrlC == \* kills the job in the foreground
  /\ jobs' = SelectSeq(jobs, LAMBDA j : j.st # "fg")
  /\ killed' = killed \cup {jobs[k].id : k \in {k \in 1..Len(jobs) : jobs[k].st = "fg"}}
  /\ UNCHANGED <<next, released, vars, ended>> /\ Log("ctrlc", 0, 0)
Bg(n) ==
  /\ ~Waiting /\ n \in 0..Len(jobs)
  /\ IF n = Len(jobs) THEN UNCHANGED <<jobs, vars, ended>>        \* refused
     ELSE Settle(WithState(jobs, jobs[n + 1].id, "bg"), jobs[n + 1].id, released)
  /\ UNCHANGED <<next, released, killed>> /\ Log("bg", IF n = Len(jobs) THEN 0 ELSE jobs[n + 1].id, n)
Fg(n) ==
  /\ ~Waiting /\ n \in 0..Len(jobs)
  /\ IF n = Len(jobs) THEN UNCHANGED <<jobs, vars, ended>>
     ELSE Settle(WithState(jobs, jobs[n + 1].id, "fg"), jobs[n + 1].id, released)
  /\ UNCHANGED <<next, released, killed>> /\ Log("fg", IF n = Len(jobs) THEN 0 ELSE jobs[n + 1].id, n)
Kill(id) ==          \* from outside
  /\ id \in Live /\ jobs' = Without(jobs, id) /\ killed' = killed \cup {id}
  /\ UNCHANGED <<next, released, vars, ended>> /\ Log("kill", id, 0)
Assign(v) ==         \* in the shell
  /\ ~Waiting /\ vars' = [vars EXCEPT ![v] = -(Len(hist) + 1)]
  /\ UNCHANGED <<jobs, next, released, ended, killed>> /\ Log("assign", 0, v)

Next == /\ Len(hist) < MaxLen
        /\ \/ \E f \in BOOLEAN : Start(f)
           \/ \E id \in Live : Release(id) \/ Kill(id)
           \/ CtrlZ \/ CtrlC
           \/ \E n \in 0..Len(jobs) : Bg(n) \/ Fg(n)
           \/ \E v \in DOMAIN vars : Assign(v)
Spec == Init /\ [][Next]_vars_

TypeOK == /\ \A j, k \in 1..Len(jobs) : j < k => jobs[j].id < jobs[k].id
          /\ Live \cap (ended \cup killed) = {} /\ Live \cup ended \cup killed = 1..(next - 1)
OneForeground == Cardinality({k \in 1..Len(jobs) : jobs[k].st = "fg"}) <= 1
(* Whatever can go on has gone on. *)
NoneLeftWaiting == \A k \in 1..Len(jobs) : jobs[k].id \in released => jobs[k].st = "paused"
(* Only jobs that ended by themselves have set variables, and nothing they set is lost unless it was replaced. *)
VarsFromEnded == \A v \in DOMAIN vars : vars[v] > 0 => vars[v] \in ended /\ VarOf(vars[v]) = v
Applied == [][\A id \in ended' \ ended : vars'[VarOf(id)] = id]_vars_

Emit == IF Len(hist') = MaxLen /\ ~(\E k \in 1..Len(jobs') : jobs'[k].st = "fg")
        THEN PrintT("TRACE " \o ToJson(hist')) ELSE TRUE
=============================================================================
