----------------------------- MODULE HistoryTrace -----------------------------
(* Judges recorded sessions: after each command typed, what was noted; after each run, what is kept. *)
EXTENDS History, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k, st
vars == <<sid, k, st>>
Bad(s, n, clause, want) == PrintT("BAD " \o ToJson([sid |-> s, k |-> n, clause |-> clause, want |-> want]))
\* events: [run |-> TRUE] starts the shell; otherwise [text, did]: what was typed, and what was noted then
Init == sid \in 1..Len(Sessions) /\ k = 0 /\ st = New
Judge(e, s1, n) ==
  LET want == From(s1.did, Len(st.did) + 1) IN
  IF ~s1.known THEN PrintT("UNSPEC " \o ToJson([sid |-> sid, k |-> n]))
  ELSE IF e.stuck THEN Bad(sid, n, "the shell does not ask for the next command", want)
  ELSE IF e.did # want THEN Bad(sid, n, "what was run", want)
  ELSE IF e.left # s1.ended THEN Bad(sid, n, "whether the shell ends", want)
  ELSE TRUE
Next == /\ k < Len(Sessions[sid]) /\ st.known
        /\ sid' = sid /\ k' = k + 1
        /\ LET e == Sessions[sid][k + 1] IN
           IF e.run THEN st' = Begun(st)
           ELSE LET s1 == Type(st, e.text) IN st' = s1 /\ Judge(e, s1, k + 1)
Spec == Init /\ [][Next]_vars
=============================================================================
