---- MODULE WorkspacesTrace ----
(* Are recorded sessions of several shells behaviours of Workspaces? Prints how far each one can be followed. *)
EXTENDS Workspaces, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES sid, k
ToSet(s) == {s[i] : i \in 1..Len(s)}

Matches(r, o, obs) ==
  /\ obs.state = (IF o.op = "exit" THEN "ended" ELSE "ready")
  /\ o.op # "unset" => obs.refused = r.refused
  /\ ToSet(obs.damaged) \subseteq r.damaged
  /\ o.op = "list" => ToSet(obs.list) = r.list
  /\ o.op = "probe" => /\ obs.ident = r.ident
                       /\ \A v \in Vars : r.vals[v] \in {obs.vals[v], "?"}

TraceInit == Init /\ sid \in 1..Len(Sessions) /\ k = 1
Event == Sessions[sid].events[k]
Consume == k' = k + 1 /\ PrintT("AT " \o ToJson([sid |-> sid, k |-> k]))
TraceNext == /\ k <= Len(Sessions[sid].events) /\ sid' = sid
             /\ \/ /\ Event.e = "begin" /\ Begin(Event.p, Event.op) /\ Consume
                \/ /\ Event.e = "end" /\ End(Event.p) /\ Matches(res[Event.p], pend[Event.p].op, Event.obs) /\ Consume
                \/ /\ Event.e = "crash" /\ Crash(Event.p) /\ Consume
                \/ /\ \E p \in Procs : Step(p)
                   /\ k' = k
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, sid, k>>
=============================================================================
