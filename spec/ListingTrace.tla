----------------------------- MODULE ListingTrace -----------------------------
(* Judges recorded ls commands. *)
EXTENDS Listing, Json, IOUtils
Sessions == JsonDeserialize(IOEnv.TRACE)
Tree(s) == LET t == Sessions[s].tree IN
           [p \in {t[i].path : i \in 1..Len(t)} |-> t[CHOOSE i \in 1..Len(t) : t[i].path = p]]
VARIABLES sid, k, fs
vars == <<sid, k, fs>>
Kind(n) == CASE n.k = "d" -> "d" [] n.k = "l" -> "l" [] n.k = "f" -> "-"
Show(f, c, base, item) ==
  IF item[1] = "E" THEN <<"E">>
  ELSE IF c.style = "path" THEN <<"P", Slashed(item[2])>>
  ELSE LET n == f[Node(f, item[2])[2]] IN
       <<"F", Kind(n) \o n.perm, IF n.k = "f" THEN n.size ELSE 0,
         Slashed(SubSeq(item[2], Len(base) + 1, Len(item[2]))), IF n.k = "l" THEN n.target ELSE "">>
Judge(f, c, s, n) ==
  LET flags == {c.flags[i] : i \in 1..Len(c.flags)}
      items == Listed(f, c.cwd, flags, c.args)
      want == IF items = Refused THEN <<>>
              ELSE LET base == Base(f, c.cwd, c.args) IN [i \in 1..Len(items) |-> Show(f, c, base, items[i])]
      Bad(clause) == PrintT("BAD " \o ToJson([sid |-> s, k |-> n, clause |-> clause, want |-> want])) IN
  CASE c.crash -> Bad("crash")
    [] items = Refused /\ ~c.kill -> Bad("not refused, though nothing is denoted")
    [] items # Refused /\ c.kill -> Bad("refused")
    [] c.items # want -> Bad(IF {want[i] : i \in 1..Len(want)} \ {c.items[i] : i \in 1..Len(c.items)} # {} THEN "something is missing"
                             ELSE IF {c.items[i] : i \in 1..Len(c.items)} \ {want[i] : i \in 1..Len(want)} # {} THEN "something does not belong"
                             ELSE "repeated, or out of order")
    [] OTHER -> PrintT("OK " \o ToJson([n |-> Len(want), e |-> <<"E">> \in {want[i] : i \in 1..Len(want)}]))
Init == sid \in 1..Len(Sessions) /\ k = 0 /\ fs = Tree(sid)
Next == /\ k < Len(Sessions[sid].cmds)
        /\ k' = k + 1 /\ sid' = sid /\ fs' = fs
        /\ Judge(fs, Sessions[sid].cmds[k + 1], sid, k + 1)
Spec == Init /\ [][Next]_vars
=============================================================================
