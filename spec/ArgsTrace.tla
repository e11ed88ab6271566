----------------------------- MODULE ArgsTrace -----------------------------
(* Operators with arguments, and what the implementation did, against Args and, for what the bound arguments mean, Core.

   A record has the operator (op), its arguments (args), the operators feeding it (pre, of Core), what was observed:
   obs, as in Core; ran: whether anything was executed; after: what a probe showed afterwards; err: whether there was
   a message. mode: "core": the operator is one of Core, and shows its output; "same": commands with the same bound
   arguments are observed to do the same; "refusals": only refusals are judged, other commands are not run. *)
EXTENDS CoreTrace, Args
VARIABLE seen
avars == <<sid, k, g, seen>>

Num(v) == v[2]
FnOr(op, b, name, default) == IF Has(op, b, name) THEN Bound(op, b, name)[2] ELSE default
IntOr(op, b, name, default) == IF Has(op, b, name) THEN Num(Bound(op, b, name)) ELSE default
Lit(v) == <<"lit", v[2], v[3]>>

Padded(n, w) == LET ds == StrOf(I(n)) IN [j \in 1..(w - Len(ds)) |-> 48] \o ds
GenRows(count, start, pad) ==
  IF pad = <<>> THEN [op |-> "gen", n |-> count, start |-> start]
  ELSE [op |-> "rows", rows |-> [j \in 1..count |-> <<"s", Padded(start + j - 1, pad[1])>>]]

(* The operator of Core, and whether these arguments are refused although they are bound. *)
Meaning(op, b) ==
  CASE op \in {"head", "tail"} -> [op |-> op, n |-> IntOr(op, b, "N", 0)]
    [] op = "gen" -> GenRows(IntOr(op, b, "COUNT", 0), IntOr(op, b, "START", 0), IF Has(op, b, "pad") THEN <<Num(Bound(op, b, "pad"))>> ELSE <<>>)
    [] op = "args" -> [op |-> op, all |-> Has(op, b, "all"), arg |-> Lit(Bound(op, b, "pipeline"))]
    [] op = "filter" -> [op |-> op, keep |-> ~Has(op, b, "discard"), e |-> FnOr(op, b, "compare", <<"none">>), arg |-> Lit(Bound(op, b, "pipeline"))]
    [] op = "join" -> [op |-> op, keep |-> Has(op, b, "keep"), arg |-> Lit(Bound(op, b, "pipeline"))]
    [] op = "difference" -> [op |-> op, arg |-> Lit(Bound(op, b, "pipeline"))]
    [] op \in {"union", "intersect"} -> [op |-> op, args |-> [j \in 1..Len(b.list) |-> Lit(b.list[j])]]
    [] op = "expand" -> [op |-> op, n |-> IntOr(op, b, "POSITION", -1)]
    [] op \in {"map", "select"} -> [op |-> op, e |-> FnOr(op, b, "function", <<"none">>)]
    [] op = "sort" -> [op |-> op, e |-> FnOr(op, b, "KEY", <<"none">>)]
    [] op = "reverse" -> [op |-> op]
    [] op = "squish" -> [op |-> op, f |-> FnOr(op, b, "FUNCTION", "+")]
    [] op = "unique" -> [op |-> op, c |-> Has(op, b, "consecutive")]
    [] op = "red" -> [op |-> op, inc |-> Has(op, b, "incremental"), fs |-> [j \in 1..Len(b.list) |-> b.list[j][2]]]
    [] op = "window" -> [op |-> op, kind |-> IF Has(op, b, "overlap") THEN "o" ELSE IF Has(op, b, "disjoint") THEN "d" ELSE "p",
                         n |-> IntOr(op, b, "overlap", IntOr(op, b, "disjoint", 0)), e |-> FnOr(op, b, "PREDICATE", <<"none">>)]

\* what Core does not express
Beyond(op, b) ==
  \/ Unknown(b)
  \/ /\ op \in {"map", "select"} /\ Bound(op, b, "function")[1] = "sym"
  \/ /\ op = "sort" /\ Has(op, b, "KEY") /\ Bound(op, b, "KEY")[1] = "sym"
  \/ /\ op = "window" /\ Has(op, b, "PREDICATE") /\ Bound(op, b, "PREDICATE")[1] = "sym"
  \/ /\ op = "squish" /\ Has(op, b, "FUNCTION") /\ (Bound(op, b, "FUNCTION")[1] = "e" \/ Bound(op, b, "FUNCTION")[2] = ".")
  \/ /\ op = "red" /\ (b.list = <<>> \/ \E j \in 1..Len(b.list) : b.list[j][1] = "e")
  \/ /\ op \in {"union", "intersect"} /\ b.list = <<>>
  \/ /\ op = "gen" /\ (IntOr(op, b, "COUNT", 0) < 1 \/ (Has(op, b, "pad") /\ IntOr(op, b, "START", 0) < 0))
\* padding to fewer digits than there are, a position before the first
Impossible(op, b) ==
  \/ op = "expand" /\ Has(op, b, "POSITION") /\ Num(Bound(op, b, "POSITION")) < 0
  \/ op = "gen" /\ Has(op, b, "pad")
                    /\ Len(StrOf(I(IntOr(op, b, "START", 0) + IntOr(op, b, "COUNT", 0) - 1))) > Num(Bound(op, b, "pad"))

RECURSIVE Spaced(_)
Spaced(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1][2] ELSE ws[1][2] \o <<32>> \o Spaced(Tail(ws))
Ints(a, n) == [j \in 1..n |-> Row(Tup(<<I(a + j - 1)>>))]
Codes_ == [va |-> <<118, 97>>, vb |-> <<118, 98>>, vc |-> <<118, 99>>]
Lines(ls) == [j \in 1..Len(ls) |-> Row(Tup(<<<<"s", ls[j]>>>>))]
PairLines(left, sep, right) == [j \in 1..2 |-> left \o Digits(j - 1) \o sep \o Digits(j) \o right]

(* What can be said without Core: what echo is given, what store stores, what write writes. *)
Meant(c, b) ==
  CASE c.op = "bash" -> IF b.list # <<>> /\ b.list[1] = <<"s", <<101, 99, 104, 111>>>> /\ (\A j \in 1..Len(b.list) : b.list[j][1] = "s")
                           /\ ~Has(c.op, b, "interactive")
                        THEN c.obs.items = Lines(<<Spaced(Tail(b.list))>>) ELSE TRUE
    [] c.op = "store" ->
         \A n \in 1..3 :
           LET v == <<"va", "vb", "vc">>[n]
               before == Ints(0, IF v = "va" THEN 2 ELSE 1) IN
           c.after[n].items = (IF Bound(c.op, b, "VAR") = <<"s", Codes_[v]>>
                               THEN (IF Has(c.op, b, "append") THEN before ELSE <<>>) \o Ints(5, 3) ELSE before)
    [] c.op = "write" ->
         IF Has(c.op, b, "pickle") \/ Has(c.op, b, "format") THEN TRUE
         ELSE IF ~Has(c.op, b, "FILENAME") THEN (c.obs.kill <=> Has(c.op, b, "append"))
         ELSE \A n \in 1..2 :
           LET old == IF n = 1 THEN <<<<48>>, <<49>>>> ELSE <<<<48>>>>
               new == IF Has(c.op, b, "csv") THEN PairLines(<<>>, <<44>>, <<>>)
                      ELSE IF Has(c.op, b, "tsv") THEN PairLines(<<>>, <<9>>, <<>>) ELSE PairLines(<<40>>, <<44, 32>>, <<41>>) IN
           c.after[n].items = Lines(IF Bound(c.op, b, "FILENAME") = <<"s", <<<<119, 102>>, <<119, 103>>>>[n]>>
                                    THEN (IF Has(c.op, b, "append") THEN old ELSE <<>>) \o new ELSE old)
    [] OTHER -> TRUE

Report(c, clause, o) == PrintT("BAD " \o ToJson([sid |-> sid, k |-> k, clause |-> clause, kill |-> o.kill, expected |-> o.items]))
Check(c) ==
  LET b == BindArgs(c.op, c.args)
      none == Outcome(g, <<>>, "any") IN
  /\ PrintT("KIND " \o ToJson(<<c.op, b.ok>>))
  /\ IF c.obs.crash THEN Report(c, "crash", none)
     ELSE IF b.ok # "" THEN
       IF ~c.obs.kill THEN Report(c, "not refused: " \o b.ok, Outcome(g, <<>>, "kill"))
       ELSE IF c.obs.items # <<>> THEN Report(c, "output of a refused command: " \o b.ok, Outcome(g, <<>>, "kill"))
       ELSE IF c.ran THEN Report(c, "executed before it is refused: " \o b.ok, Outcome(g, <<>>, "kill"))
       ELSE TRUE
     ELSE IF c.mode = "core" THEN
       IF Beyond(c.op, b) THEN TRUE
       ELSE IF Impossible(c.op, b) THEN (IF c.obs.kill THEN TRUE ELSE Report(c, "not refused: impossible value", Outcome(g, <<>>, "kill")))
       ELSE LET o == Do([c |-> "run", pipe |-> c.pre \o <<Meaning(c.op, b)>>], g) IN
            IF Matches(o, c.obs) THEN TRUE ELSE Report(c, Clause(o, c.obs), o)
     ELSE TRUE

Observed(c) == ToJson(<<c.obs.items, c.obs.kill, c.after>>)
ACheck(c) ==
  LET b == BindArgs(c.op, c.args)
      key == KeyOf(c.op, b) IN
  /\ Check(c)
  /\ IF b.ok = "" /\ c.mode = "same" /\ ~Unknown(b) THEN
       /\ IF c.obs.kill /\ ~c.mayfail THEN Report(c, "refused", Outcome(g, <<>>, "")) ELSE TRUE
       /\ IF Meant(c, b) THEN TRUE ELSE Report(c, "meaning", Outcome(g, <<>>, ""))
       /\ IF key \notin DOMAIN seen \/ seen[key] = Observed(c) THEN TRUE
          ELSE Report(c, "differs from an equivalent command", Outcome(g, <<>>, ""))
       /\ seen' = IF key \in DOMAIN seen THEN seen ELSE (key :> Observed(c)) @@ seen
     ELSE UNCHANGED seen

AInit == sid \in 1..Len(Sessions) /\ k = 1 /\ g = EmptyFcn /\ seen = EmptyFcn
ANext == /\ k <= Len(Sessions[sid].cmds)
         /\ ACheck(Sessions[sid].cmds[k])
         /\ k' = k + 1 /\ UNCHANGED <<sid, g>>
(* Before anything is run: which of the commands are bound. *)
PInit == sid = 1 /\ k = 1 /\ g = EmptyFcn /\ seen = EmptyFcn /\ PrintT("DECL " \o ToJson(Declared))
PNext == /\ k <= Len(Sessions) /\ k' = k + 1 /\ UNCHANGED <<sid, g, seen>>
         /\ LET b == BindArgs(Sessions[k].op, Sessions[k].args) IN
            IF b.ok = "" THEN PrintT("BOUND " \o ToJson([k |-> k, key |-> KeyOf(Sessions[k].op, b)])) ELSE TRUE
PSpec == PInit /\ [][PNext]_avars
ASpec == AInit /\ [][ANext]_avars
=============================================================================
