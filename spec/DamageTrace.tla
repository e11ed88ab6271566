---- MODULE DamageTrace ----
(* Are recorded sessions with damaged workspaces behaviours of Damage? *)
EXTENDS Damage, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES sid, k
ToSet(s) == {s[i] : i \in 1..Len(s)}
Event == Sessions[sid].events[k]
\* obs: what was seen. kept: workspaces whose files are as they were; set: those found among what was moved aside,
\* with everything which was left of them
Matches(o, obs) ==
  o.op # "harm" =>
  /\ obs.state = (IF o.op \in {"exit", "script"} THEN "ended" ELSE "ready")
  /\ obs.refused = res'.refused
  /\ ToSet(obs.damaged) = res'.damaged
  /\ o.op \notin {"exit", "script"} => obs.ident = cur'
  /\ ~res'.refused /\ o.op \in {"start", "script"} => ToSet(obs.list) = res'.list
  /\ ToSet(obs.kept) = {n \in ex : aside'[n] = aside[n]}
  /\ ToSet(obs.set) = {n \in All : aside'[n] # aside[n]}
TraceInit == Init /\ sid \in 1..Len(Sessions) /\ k = 1
TraceNext == /\ k <= Len(Sessions[sid].events) /\ sid' = sid
             /\ Do(Event.op) /\ Matches(Event.op, Event.obs)
             /\ k' = k + 1 /\ PrintT("AT " \o ToJson([sid |-> sid, k |-> k]))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, sid, k>>
=============================================================================
