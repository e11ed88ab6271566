---------------------------- MODULE CompleteTrace ----------------------------
(* Judges recorded completions. *)
EXTENDS Complete, IOUtils
Sessions == JsonDeserialize(IOEnv.TRACE)
Range(s) == {s[i] : i \in 1..Len(s)}
VARIABLES sid, k
vars == <<sid, k>>
Init == sid \in 1..Len(Sessions) /\ k = 0
Next == /\ k < Len(Sessions[sid].cases)
        /\ k' = k + 1 /\ sid' = sid
        /\ LET f == Sessions[sid].fs
               fs == [f EXCEPT !.programs = Range(f.programs), !.users = Range(f.users)]
               v == Verdict(fs, Sessions[sid].cases[k + 1])
           IN IF v = "" THEN TRUE ELSE PrintT("BAD " \o ToJson([sid |-> sid, k |-> k + 1, clause |-> v]))
Spec == Init /\ [][Next]_vars
=============================================================================
