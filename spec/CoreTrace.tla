------------------------------ MODULE CoreTrace ------------------------------
(* Sessions of marcel commands recorded from the implementation, checked against Core.

   A session is a sequence of commands with what each of them was observed to do. The state is the session, the
   number of the next command and the variables. A command which did something else than Core says is
   reported (BAD); checking goes on with the variables Core gives, so that one pass judges all commands. *)
EXTENDS Core, Json, IOUtils

Sessions == JsonDeserialize(IOEnv.TRACE)
VARIABLES sid, k, g
vars == <<sid, k, g>>

Env(vs) == [g |-> vs, lex |-> EmptyFcn, dyn |-> {}]
Set(vs, name, b) == (name :> b) @@ vs

Outcome(vs, items, kill) == [g |-> vs, items |-> items, kill |-> kill]
ErrsOf(items) == SelectSeq(items, LAMBDA it : IsErr(it))

\* rows are shown as tuples
Shown(items) == [j \in 1..Len(items) |-> IF IsErr(items[j]) THEN items[j] ELSE Row(Key(items[j][2]))]

(* Variables which commands must not change: those supplied by marcel, and those assigned in the startup script. *)
SuppliedVars == {"BOLD", "COLOR_SCHEME", "Color", "DIRS", "HOME", "HOST", "ITALIC", "MARCEL_VERSION", "pos", "PROMPT",
                 "PWD", "USER", "WORKSPACE"}
Protected(s) == SuppliedVars \cup {Sessions[s].init[j].name : j \in 1..Len(Sessions[s].init)}
InitVars(s) == [n \in {Sessions[s].init[j].name : j \in 1..Len(Sessions[s].init)} |->
                  LET j == CHOOSE j \in 1..Len(Sessions[s].init) : Sessions[s].init[j].name = n IN <<"val", Sessions[s].init[j].v>>]

(* what a command does: new variables, output, aborted or not *)
Do(c, vs) ==
  LET env == Env(vs) IN
  CASE c.c = "run" -> LET r == RunPipe(c.pipe, env) IN Outcome(vs, Shown(r.out), r.kill)
    [] c.c = "assign" ->
         LET v == Eval(c.e, Tup(<<>>), 0, env) IN
         IF IsExc(v) THEN Outcome(vs, <<>>, IF Tag(v) = "U" THEN "U" ELSE "kill")
         ELSE Outcome(Set(vs, c.name, <<"val", v>>), <<>>, "")
    [] c.c = "assignp" -> Outcome(Set(vs, c.name, <<"pipe", c.params, c.pipe>>), <<>>, "")
    [] c.c = "store" ->
         LET bad == SetupBadPipe(c.pipe, env)
             old == IF c.name \in DOMAIN vs THEN vs[c.name] ELSE <<"none">>
             r == RunPipe(c.pipe, env)
             items == RowsOf(r.out)
             keep == IF c.append /\ old[1] = "res" THEN old[2] ELSE <<>> IN
         IF bad # "" THEN Outcome(vs, <<>>, bad)
         ELSE IF c.append /\ (old[1] \in {"pipe", "fn"} \/ (old[1] = "val" /\ old[2] # None)) THEN Outcome(vs, <<>>, "kill")
         ELSE Outcome(Set(vs, c.name, <<"res", keep \o items>>), ErrsOf(r.out), r.kill)
    [] c.c = "del" -> IF c.name \in DOMAIN vs
                      THEN Outcome([n \in DOMAIN vs \ {c.name} |-> vs[n]], <<>>, "any")
                      ELSE Outcome(vs, <<>>, "any")
    [] c.c = "defined" -> \* which of the names in c.names does env list, in order
         Outcome(vs, [j \in 1..Cardinality({i \in 1..Len(c.names) : c.names[i] \in DOMAIN vs}) |->
                        Row(Tup(<<c.codes[CHOOSE i \in 1..Len(c.names) :
                              /\ c.names[i] \in DOMAIN vs
                              /\ Cardinality({h \in 1..i : c.names[h] \in DOMAIN vs}) = j]>>))], "")
    [] c.c = "assignf" -> Outcome(Set(vs, c.name, <<"fn", c.e>>), <<>>, "")
    [] c.c = "same" -> Outcome(vs, c.want, "")          \* shows something that cannot change
    [] c.c = "bad" -> Outcome(vs, <<>>, "kill")

OneMoreError(items, more) == /\ Len(more) = Len(items) + 1 /\ IsErr(more[Len(more)])
                             /\ SubSeq(more, 1, Len(items)) = items

Matches(o, obs) ==
  /\ ~obs.crash
  /\ CASE o.kill = "U" -> TRUE
       [] o.kill = "any" -> TRUE
       \* an argument whose evaluation fails is also reported in the output
       [] o.kill = "kill" -> obs.kill /\ (obs.items = o.items \/ OneMoreError(o.items, obs.items))
       [] OTHER -> ~obs.kill /\ obs.items = o.items

Clause(o, obs) == IF obs.crash THEN "crash"
                  ELSE IF o.kill = "kill" /\ ~obs.kill THEN "not refused"
                  ELSE IF o.kill = "" /\ obs.kill THEN "refused"
                  ELSE "output"

\* what the pipeline stored is not run
Refused(c) == Outcome(g, <<>>, IF c.c = "assign" /\ IsExc(Eval(c.e, Tup(<<>>), 0, Env(g))) /\ Tag(Eval(c.e, Tup(<<>>), 0, Env(g))) = "U" THEN "U" ELSE "kill")

Init == /\ sid \in 1..Len(Sessions) /\ k = 1 /\ g = InitVars(sid)
Next == /\ k <= Len(Sessions[sid].cmds)
        /\ LET c == Sessions[sid].cmds[k]
               o == IF c.c \in {"assign", "assignp", "assignf", "store", "del"} /\ c.name \in Protected(sid)
                    THEN Refused(c) ELSE Do(c, g) IN
           /\ IF Matches(o, c.obs) THEN TRUE
              ELSE PrintT("BAD " \o ToJson([sid |-> sid, k |-> k, clause |-> Clause(o, c.obs), kill |-> o.kill,
                                            expected |-> o.items, observed |-> c.obs.items]))
           /\ IF o.kill = "U" THEN PrintT("UNSPEC " \o ToJson([sid |-> sid, k |-> k])) ELSE TRUE
           /\ g' = o.g /\ sid' = sid
           \* what a command does to the variables may depend on what is not determined
           /\ k' = IF o.kill = "U" /\ c.c # "run" THEN Len(Sessions[sid].cmds) + 1 ELSE k + 1
Spec == Init /\ [][Next]_vars
=============================================================================
