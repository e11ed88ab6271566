------------------------------ MODULE ApiTrace ------------------------------
(* Pipelines composed by the functions of the Python API, judged by the meaning Core gives to the same pipeline when it is
   a command. A pipeline is consumed in one of several ways (mode); what was seen is one or more lists of items:
   run       what was printed               gather   the list returned, rows as tuples
   gatheru   rows of one value unwrapped    list     by iteration, unwrapped
   again     two iterations, and gather     part     a complete iteration while another one is under way, and that one
   prefix    by iteration, after the pipeline was used as the beginning of another
   first     the first row (none, or an exception, when there is none or it is an error) *)
EXTENDS CoreTrace

Unwrap(items) == [j \in 1..Len(items) |->
   IF IsErr(items[j]) \/ Len(items[j][2][2]) # 1 THEN items[j] ELSE Row(items[j][2][2][1])]
FirstOf(items) == IF items = <<>> THEN <<>> ELSE <<items[1]>>

Seen(mode, items) == CASE mode \in {"run", "gather"} -> <<items>>
                       [] mode \in {"gatheru", "list", "prefix"} -> <<Unwrap(items)>>
                       [] mode = "again" -> <<Unwrap(items), Unwrap(items), Unwrap(items)>>
                       [] mode = "part" -> <<Unwrap(items), Unwrap(items)>>
                       [] mode = "first" -> <<FirstOf(items)>>

\* a pipeline which fails when it has produced rows: first() does not get that far
Kill(mode, o) == IF mode = "first" /\ o.items # <<>> THEN "any" ELSE o.kill

\* a row shows as a list or tuple
Loose(items) == [j \in 1..Len(items) |-> IF IsErr(items[j]) \/ Tag(items[j][2]) # "l" THEN items[j] ELSE Row(Tup(items[j][2][2]))]
PartOK(o, w, s) == LET want == Loose(w) got == Loose(s) IN got = want \/ (o.kill = "kill" /\ OneMoreError(want, got))
Judge(c, o, obs) ==
  IF o.kill = "U" THEN ""
  ELSE IF obs.crash THEN "crash"
  ELSE IF c.c = "run" THEN
       LET want == Seen(c.mode, o.items)
           kill == Kill(c.mode, o) IN
       IF kill = "kill" /\ ~obs.kill THEN "not refused"
       ELSE IF kill = "" /\ obs.kill THEN "refused"
       ELSE IF o.kill = "kill" /\ c.mode = "first" /\ o.items = <<>> THEN ""
       ELSE IF Len(obs.parts) # Len(want) THEN "parts"
       ELSE IF \E j \in 1..Len(want) : ~PartOK(o, want[j], obs.parts[j]) THEN "rows" ELSE ""
  ELSE IF c.c = "store" THEN
       IF o.kill = "kill" THEN IF obs.kill THEN "" ELSE "not refused"
       ELSE IF o.kill = "" /\ obs.kill THEN "refused"
       ELSE IF obs.parts[1] # o.items THEN "errors" ELSE ""
  ELSE IF obs.kill THEN "refused" ELSE ""

Fixed(c, obs) == IF obs.crash THEN "crash" ELSE IF obs.kill THEN "refused"
                 ELSE IF Len(obs.parts) # Len(Seen(c.mode, c.want)) \/ \E j \in 1..Len(obs.parts) : Loose(obs.parts[j]) # Loose(Seen(c.mode, c.want)[j]) THEN "rows"
                 ELSE IF c.c = "lazy" /\ obs.n > c.most THEN "more than the first row needs" ELSE ""

ApiNext ==
  /\ k <= Len(Sessions[sid].cmds)
  /\ LET c == Sessions[sid].cmds[k]
         given == c.c \in {"same", "lazy", "pre"}
         o == IF given THEN Outcome(g, IF c.c = "pre" THEN <<>> ELSE c.want, "") ELSE Do(c, g)
         v == IF c.c = "pre" THEN (IF c.obs.crash THEN "crash" ELSE "") ELSE IF given THEN Fixed(c, c.obs) ELSE Judge(c, o, c.obs) IN
     /\ IF v = "" THEN TRUE ELSE PrintT("BAD " \o ToJson([sid |-> sid, k |-> k, clause |-> v, expected |-> o.items]))
     /\ IF o.kill = "U" THEN PrintT("UNSPEC " \o ToJson([sid |-> sid, k |-> k])) ELSE TRUE
     /\ g' = o.g /\ sid' = sid
     /\ k' = IF o.kill # "" /\ c.c # "run" THEN Len(Sessions[sid].cmds) + 1 ELSE k + 1
ApiSpec == Init /\ [][ApiNext]_vars
=============================================================================
