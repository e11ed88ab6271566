----------------------------- MODULE ScriptTrace -----------------------------
(* Judges recorded runs of marcel on scripts: what each printed, and how many messages it gave. *)
EXTENDS Script, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k, st
vars == <<sid, k, st>>
Bad(s, n, clause, want) == PrintT("BAD " \o ToJson([sid |-> s, k |-> n, clause |-> clause, out |-> want.out, err |-> want.err]))
Judge(run, want, s, n) ==
  IF run.rc # 0 THEN Bad(s, n, "the process did not end normally", want)
  ELSE IF run.out # want.out THEN Bad(s, n, "output", want)
  ELSE IF run.err # want.err THEN Bad(s, n, "number of messages", want)
  ELSE TRUE
Init == sid \in 1..Len(Sessions) /\ k = 0 /\ st = Fresh
Next == /\ k < Len(Sessions[sid].runs)
        /\ LET run == Sessions[sid].runs[k + 1] IN
           /\ sid' = sid
           /\ IF RunKnown(run.mode, run.lines)
              THEN LET want == Run(st, run.mode, run.lines) IN
                   /\ k' = k + 1 /\ st' = want.st
                   /\ Judge(run, want, sid, k + 1)
              ELSE /\ k' = Len(Sessions[sid].runs) /\ st' = st
                   /\ PrintT("UNSPEC " \o ToJson([sid |-> sid, k |-> k + 1]))
Spec == Init /\ [][Next]_vars
=============================================================================
