---- MODULE WorkspacesMC ----
(* Exhaustive exploration of Workspaces for a few processes, names and operations. *)
EXTENDS Workspaces
CONSTANT MaxOps
VARIABLE count
Ops == {[op |-> "start"], [op |-> "exit"], [op |-> "close"]}
       \union [op : {"new", "open", "delete"}, n : Names]
       \union [op : {"set"}, v : Vars, val : {"i1"}] \union [op : {"store"}, v : Vars, k : {1}, app : BOOLEAN]
InitMC == Init /\ count = 0
NextMC == \/ \E p \in Procs, o \in Ops : count < MaxOps /\ Begin(p, o) /\ count' = count + 1
          \/ \E p \in Procs : (Step(p) \/ End(p)) /\ UNCHANGED count
          \/ \E p \in Procs : count < MaxOps /\ Crash(p) /\ count' = count + 1
SpecMC == InitMC /\ [][NextMC]_<<vars, count>>
SavedByOwnerMC == SavedByOwner
=============================================================================
