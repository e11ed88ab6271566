---- MODULE DamageMC ----
(* Exhaustive check of Damage, and generation of its behaviours. *)
EXTENDS Damage, Json, IOUtils
CONSTANTS Depth, MCKinds
VARIABLES hist
MCInit == Init /\ hist = <<>>
MCOps == {o \in Ops : o.op = "harm" => o.k \in MCKinds}
MCNext == /\ Len(hist) < Depth
          /\ \E o \in MCOps : Do(o) /\ hist' = Append(hist, o)
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
MCView == <<vars, Len(hist)>>
=============================================================================
