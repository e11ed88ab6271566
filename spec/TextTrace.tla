------------------------------ MODULE TextTrace ------------------------------
(* Commands given as text, with what the implementation did, against Text and Core. The state is that of CoreTrace
   and the files written by redirections: name -> the lines, or Unknown. *)
EXTENDS CoreTrace, Text
VARIABLE fs
tvars == <<sid, k, g, fs>>

Tables == JsonDeserialize(IOEnv.TABLES)
WordsTable == Tables.words
ExprsTable == Tables.exprs

Unknown == <<<<0>>>>          \* no line contains this character
FileChars == (48..57) \cup (65..90) \cup (97..122) \cup {95, 32}
FileName(codes) == codes # <<>> /\ Head(codes) # 32 /\ \A j \in 1..Len(codes) : codes[j] \in FileChars

\* o: the outcome; f: the files; end: nothing is known about the variables and files afterwards
R(o, f, end, loose) == [o |-> o, fs |-> f, end |-> end, loose |-> loose]
Kill(vs) == Outcome(vs, <<>>, "kill")
AnyOutcome(vs) == Outcome(vs, <<>>, "any")

Writable(row) == row[2] # <<>> /\ Len(row[2]) = 1 /\ Tag(row[2][1]) \in {"i", "s"}
                 /\ (Tag(row[2][1]) = "i" \/ (10 \notin {row[2][1][2][j] : j \in 1..Len(row[2][1][2])}))

(* A parameter of a pipeline is visible to the operators following its execution (known finding S07-leak), and a stream
   cannot be stored while it is being loaded. Commands for which that makes a difference are not judged here. *)
RECURSIVE EVars(_), Binds(_, _), Refs(_, _), Loads(_, _), Leaky(_, _)
EVars(e) ==
  CASE e[1] = "v" -> {e[2]}
    [] e[1] \in {"+", "*", "%", "//", "==", "<"} -> EVars(e[2]) \cup EVars(e[3])
    [] e[1] \in {"not", "0"} -> EVars(e[2])
    [] e[1] \in {"t", "l", "cat"} -> UNION {EVars(e[2][j]) : j \in 1..Len(e[2])}
    [] OTHER -> {}
\* the pipelines which an operator contains or calls: <<params, pipe>>
Subs(op, vs) ==
  LET of(a) == IF a[1] \in {"lit", "pv"} THEN {<<a[2], a[3]>>} ELSE {} IN
  (IF "arg" \in DOMAIN op THEN of(op.arg) ELSE {})
  \cup (IF "args" \in DOMAIN op THEN UNION {of(op.args[j]) : j \in 1..Len(op.args)} ELSE {})
  \cup (IF "branches" \in DOMAIN op THEN UNION {of(op.branches[j][2]) : j \in 1..Len(op.branches)} ELSE {})
  \cup (IF op.op = "call" THEN (IF op.name \in DOMAIN vs THEN (IF vs[op.name][1] = "pipe" THEN {<<vs[op.name][2], vs[op.name][3]>>} ELSE {}) ELSE {}) ELSE {})
Binds(op, vs) == UNION {{s[1][j] : j \in 1..Len(s[1])} \cup UNION {Binds(s[2][j], vs) : j \in 1..Len(s[2])} : s \in Subs(op, vs)}
Refs(op, vs) ==
  (IF "e" \in DOMAIN op THEN EVars(op.e) ELSE {})
  \cup (IF op.op = "call" THEN UNION {EVars(op.args[j]) : j \in 1..Len(op.args)} ELSE {})
  \cup (IF "branches" \in DOMAIN op THEN UNION {EVars(op.branches[j][1]) : j \in 1..Len(op.branches)} ELSE {})
  \cup UNION {UNION {Refs(s[2][j], vs) : j \in 1..Len(s[2])} : s \in Subs(op, vs)}
Loads(op, vs) == (IF op.op = "load" THEN {op.name} ELSE {}) \cup UNION {UNION {Loads(s[2][j], vs) : j \in 1..Len(s[2])} : s \in Subs(op, vs)}
Leaky(pipe, vs) == \/ \E a, b \in 1..Len(pipe) : a < b /\ Binds(pipe[a], vs) \cap Refs(pipe[b], vs) # {}
                   \/ \E j \in 1..Len(pipe) : \E s \in Subs(pipe[j], vs) : Leaky(s[2], vs)

DoRun(cmd, vs, f) ==
  LET in == cmd[2] mid == cmd[3] out == cmd[4]
      reads == in.op = "read"
      source == IF ~reads THEN <<>>
                ELSE <<[op |-> "rows", rows |-> [j \in 1..Len(f[in.file]) |-> <<"s", f[in.file][j]>>]]>>
      pipe == source \o mid IN
  IF Leaky(mid, vs) \/ (out.op = "store" /\ \E j \in 1..Len(mid) : out.name \in Loads(mid[j], vs))
  THEN R(AnyOutcome(vs), f, out.op \in {"store", "write"}, FALSE)
  ELSE IF reads /\ ~FileName(in.file) THEN R(AnyOutcome(vs), f, TRUE, FALSE)
  ELSE IF out.op = "write" /\ ~FileName(out.file) THEN R(AnyOutcome(vs), f, TRUE, FALSE)
  ELSE IF reads /\ in.file \in DOMAIN f /\ f[in.file] = Unknown THEN R(AnyOutcome(vs), f, out.op \in {"store", "write"}, FALSE)
  ELSE IF reads /\ out.op = "write" /\ in.file = out.file THEN R(AnyOutcome(vs), f, TRUE, FALSE)
  ELSE IF reads /\ in.file \notin DOMAIN f THEN
    (IF mid = <<>> /\ out.op # "write" THEN R(Kill(vs), f, out.op = "store", FALSE)
     ELSE R(AnyOutcome(vs), f, out.op \in {"store", "write"}, FALSE))
  ELSE IF pipe = <<>> THEN R(AnyOutcome(vs), f, out.op \in {"store", "write"}, FALSE)
  ELSE IF out.op \in {"", "show"} THEN R(Do([c |-> "run", pipe |-> pipe], vs), f, FALSE, out.op = "")
  ELSE IF out.op = "store" THEN
    LET o == IF out.name \in Protected(sid) THEN Kill(vs)
             ELSE Do([c |-> "store", pipe |-> pipe, name |-> out.name, append |-> out.append], vs) IN
    R(o, f, o.kill = "U" \/ out.name \in OpNames, FALSE)
  ELSE \* write
    LET bad == SetupBadPipe(pipe, Env(vs))
        r == RunPipe(pipe, Env(vs))
        rs == RowsOf(r.out)
        old == IF out.append /\ out.file \in DOMAIN f THEN f[out.file] ELSE <<>>
        \* errors are written too, in a way which is not the business of this
        known == r.kill = "" /\ old # Unknown /\ ErrsOf(r.out) = <<>> /\ \A j \in 1..Len(rs) : Writable(rs[j][2])
        new == IF ~known THEN Unknown
               ELSE old \o [j \in 1..Len(rs) |-> IF Tag(rs[j][2][2][1]) = "i" THEN StrOf(rs[j][2][2][1]) ELSE rs[j][2][2][1][2]] IN
    IF bad # "" THEN R(Outcome(vs, <<>>, bad), f, TRUE, FALSE)
    ELSE R(Outcome(vs, <<>>, r.kill), (out.file :> new) @@ f, r.kill = "U", FALSE)

DoText(text, vs, f) ==
  LET cmd == Command(text) IN
  CASE cmd[1] = "empty" -> R(Outcome(vs, <<>>, ""), f, FALSE, FALSE)
    [] cmd[1] = "bad" -> R(Kill(vs), f, FALSE, FALSE)
    [] cmd[1] = "any" -> R(AnyOutcome(vs), f, cmd[2] = "?", FALSE)
    [] cmd[1] = "assign" -> LET o == IF cmd[2] \in Protected(sid) THEN Kill(vs) ELSE Do([c |-> "assign", name |-> cmd[2], e |-> cmd[3]], vs) IN
                            R(o, f, o.kill = "U" \/ cmd[2] \in OpNames, FALSE)
    [] cmd[1] = "assignp" -> LET o == IF cmd[2] \in Protected(sid) THEN Kill(vs)
                                      ELSE Do([c |-> "assignp", name |-> cmd[2], params |-> cmd[3], pipe |-> cmd[4]], vs) IN
                             R(o, f, cmd[2] \in OpNames, FALSE)
    [] cmd[1] = "run" -> DoRun(cmd, vs, f)

\* without repr at the end, rows are shown in ways which are not the business of this
TMatches(r, obs) == IF r.loose THEN ~obs.crash /\ (r.o.kill = "kill" => obs.kill) /\ (r.o.kill = "" => ~obs.kill)
                    ELSE Matches(r.o, obs)

TInit == Init /\ fs = EmptyFcn
TNext == /\ k <= Len(Sessions[sid].cmds)
         /\ LET c == Sessions[sid].cmds[k]
                r == DoText(c.text, g, fs) IN
            /\ IF TMatches(r, c.obs) THEN TRUE
               ELSE PrintT("BAD " \o ToJson([sid |-> sid, k |-> k, clause |-> Clause(r.o, c.obs), kill |-> r.o.kill,
                                             expected |-> r.o.items, observed |-> c.obs.items]))
            /\ PrintT("KIND " \o ToJson(<<Command(c.text)[1], r.o.kill, IF r.end THEN "end" ELSE "">>))
            /\ g' = r.o.g /\ sid' = sid /\ fs' = r.fs
            /\ k' = IF r.end THEN Len(Sessions[sid].cmds) + 1 ELSE k + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
