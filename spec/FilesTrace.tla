---------------------------- MODULE FilesTrace ----------------------------
(* Sessions of commands reading and writing files, recorded from the implementation, checked against Files. *)
EXTENDS Files, Json, IOUtils

Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k, files
vars == <<sid, k, files>>

New == <<"t", <<>>>>
Content(fs, p) == IF p \in DOMAIN fs THEN fs[p] ELSE New
Outcome(fs, items, kill) == [fs |-> fs, items |-> items, kill |-> kill]

(* A chain of writes: what each passes on is what the next writes. *)
RECURSIVE Chain(_, _, _)
Chain(ws, items, fs) ==
  IF ws = <<>> THEN Outcome(fs, items, "")
  ELSE LET w == Head(ws) IN
       IF w.path = 0 THEN Outcome(fs, <<>>, "kill")           \* in a directory that does not exist
       ELSE Chain(Tail(ws), PassedOn(w.fmt, items), (w.path :> Written(w.fmt, w.append, items, Content(fs, w.path))) @@ fs)

RECURSIVE Repeated(_, _, _, _)
Repeated(c, i, out, fs) ==
  IF i = c.n THEN Outcome(fs, out, "")
  ELSE LET r == Chain(<<c.write>>, [j \in 1..c.m |-> R(Tup(<<I(10 * i + j - 1)>>))], fs)
       IN Repeated(c, i + 1, out \o r.items, r.fs)

RECURSIVE ReadAll(_, _, _)
ReadAll(fs, c, ps) ==      \* ps: paths, in order
  IF ps = <<>> THEN <<"items", <<>>>>
  ELSE LET r == ReadFile(fs[Head(ps)], c.opts, c.names[Head(ps)])
           rest == ReadAll(fs, c, Tail(ps)) IN
       IF r[1] = "U" \/ rest[1] = "U" THEN <<"U">> ELSE <<"items", r[2] \o rest[2]>>

Sorted(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m}) IN F(S)

ReadOp(fs, c) ==
  LET ps == {c.paths[j] : j \in 1..Len(c.paths)} \cap DOMAIN fs
      delim == c.opts.fmt \in {"csv", "tsv"} IN
  IF (c.opts.headings /\ c.opts.skip) \/ ((c.opts.headings \/ c.opts.skip) /\ ~delim) \/ ps = {}
  THEN Outcome(fs, <<>>, "kill")
  ELSE LET r == ReadAll(fs, c, Sorted(ps)) IN
       IF r[1] = "U" THEN Outcome(fs, <<>>, "U") ELSE Outcome(fs, r[2], "")

Do(c, fs) ==
  CASE c.c = "raw" -> Outcome((c.path :> <<"t", c.codes>>) @@ fs, <<>>, "")
    [] c.c = "write" -> LET o == Chain(c.writes, c.items, fs)
                        IN IF c.quiet THEN Outcome(o.fs, <<>>, o.kill) ELSE o     \* > FILE passes nothing on
    [] c.c = "repeat" -> Repeated(c, 0, <<>>, fs)
    [] c.c = "read" -> ReadOp(fs, c)
    [] c.c = "bytes" -> \* the text in the file, to the character
         LET x == Content(fs, c.path) IN
         IF x[1] # "t" THEN Outcome(fs, <<>>, "U")
         ELSE IF c.path \in DOMAIN fs THEN Outcome(fs, <<R(Tup(<<StrV(x[2])>>))>>, "") ELSE Outcome(fs, <<E>>, "")

\* rows are shown as tuples
Shown(items) == [j \in 1..Len(items) |-> IF items[j][1] = "R" THEN R(Tup(items[j][2][2])) ELSE items[j]]
Matches(o, obs) == ~obs.crash /\ (\/ o.kill = "U"
                                  \* what went on before a file could not be opened does not matter
                                  \/ o.kill = "kill" /\ obs.kill
                                  \/ o.kill = "" /\ ~obs.kill /\ obs.items = Shown(o.items))
Clause(o, obs) == IF obs.crash THEN "crash" ELSE IF o.kill = "kill" /\ ~obs.kill THEN "not refused"
                  ELSE IF o.kill = "" /\ obs.kill THEN "refused" ELSE "output"

Init == sid \in 1..Len(Sessions) /\ k = 1 /\ files = [p \in {} |-> New]
Next == /\ k <= Len(Sessions[sid])
        /\ LET c == Sessions[sid][k]
               o == Do(c, files) IN
           /\ IF Matches(o, c.obs) THEN TRUE
              ELSE PrintT("BAD " \o ToJson([sid |-> sid, k |-> k, clause |-> Clause(o, c.obs), kill |-> o.kill,
                                            expected |-> o.items, observed |-> c.obs.items]))
           /\ IF o.kill = "U" THEN PrintT("UNSPEC " \o ToJson([sid |-> sid, k |-> k])) ELSE TRUE
           /\ files' = o.fs /\ sid' = sid /\ k' = k + 1
Spec == Init /\ [][Next]_vars
=============================================================================
