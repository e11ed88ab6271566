-------------------------------- MODULE Core --------------------------------
(* Operational semantics of marcel pipelines.

   A pipeline is a sequence of operators. Every operator is a state machine: it is pushed one item at a time
   (StepOp), and is told when its input has ended (FlushOp); both produce output items, which are pushed into
   the next operator. An item is a row <<"R", row>> or an error <<"E", kind>>. Operators taking pipelines
   as arguments contain the state machines of those pipelines.

   Results are records [st, out, kill]: new state, items produced, and kill = "" normally, "kill" when the
   command was aborted with a message, "U" when this specification does not determine what happens.       *)
EXTENDS Values, Bitwise

Row(r) == <<"R", r>>
Err(kind) == <<"E", kind>>
IsErr(item) == item[1] = "E"
Res(st, out, kill) == [st |-> st, out |-> out, kill |-> kill]
EmptyFcn == [x \in {} |-> x]

(* ---------------------------------------------------------------- environments
   env.g:   variables of the session, name -> <<"val", v>> | <<"fn", body>> |
             <<"pipe", params, pipeline>> | <<"res", items>>
   env.lex: parameters of the lexically enclosing pipelines, name -> value
   env.dyn: parameters of callers which are not lexically visible (referring to those is not determined)    *)
Lookup(env, v) ==
  IF v \in DOMAIN env.lex THEN (IF env.lex[v][1] = "pipe" THEN U ELSE env.lex[v])
  ELSE IF v \in env.dyn THEN U
  ELSE IF v \in DOMAIN env.g THEN (IF env.g[v][1] = "val" THEN env.g[v][2] ELSE U)
  ELSE X("NameError")

Bind(env, b) == [env EXCEPT !.lex = b @@ env.lex]

(* ---------------------------------------------------------------- expressions *)
\* str() of numbers and strings, concatenated
RECURSIVE Digits(_), Strs(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
StrOf(v) == IF Tag(v) = "s" THEN v[2] ELSE IF v[2] < 0 THEN <<45>> \o Digits(0 - v[2]) ELSE Digits(v[2])
Strs(vs) == IF vs = <<>> THEN <<>> ELSE StrOf(vs[1]) \o Strs(SubSeq(vs, 2, Len(vs)))
RECURSIVE Eval(_, _, _, _), EvalAll(_, _, _, _, _)
Eval(e, row, pos, env) ==
  CASE e[1] = "c"   -> e[2]
    [] e[1] = "v"   -> Lookup(env, e[2])
    [] e[1] = "a"   -> IF e[2] + 1 <= Len(row[2]) THEN row[2][e[2] + 1] ELSE X("IndexError")
    [] e[1] = "row" -> Tup(row[2])
    [] e[1] = "len" -> I(Len(row[2]))
    [] e[1] = "pos" -> I(pos)
    [] e[1] = "+"   -> Add(Eval(e[2], row, pos, env), Eval(e[3], row, pos, env))
    [] e[1] = "*"   -> Mul(Eval(e[2], row, pos, env), Eval(e[3], row, pos, env))
    [] e[1] = "%"   -> Mod(Eval(e[2], row, pos, env), Eval(e[3], row, pos, env))
    [] e[1] = "//"  -> Div(Eval(e[2], row, pos, env), Eval(e[3], row, pos, env))
    [] e[1] = "=="  -> Eq(Eval(e[2], row, pos, env), Eval(e[3], row, pos, env))
    [] e[1] = "<"   -> Less(Eval(e[2], row, pos, env), Eval(e[3], row, pos, env))
    [] e[1] = "not" -> LET v == Eval(e[2], row, pos, env) IN IF IsExc(v) THEN v ELSE B(~Truthy(v))
    [] e[1] = "f"   -> \* e[2] is a variable whose value is a function of one argument
         LET v == Eval(e[3], row, pos, env) IN
         IF e[2] \in DOMAIN env.lex \/ e[2] \in env.dyn THEN U
         ELSE IF e[2] \notin DOMAIN env.g THEN (IF Tag(v) = "U" THEN U ELSE X("NameError"))
         ELSE IF IsExc(v) THEN v
         ELSE IF env.g[e[2]][1] = "val" THEN X("TypeError")
         ELSE IF env.g[e[2]][1] # "fn" THEN U
         ELSE Eval(env.g[e[2]][2], Tup(<<v>>), 0, [g |-> env.g, lex |-> EmptyFcn, dyn |-> env.dyn \cup DOMAIN env.lex])
    \* a function without parameters
    [] e[1] = "0"   -> IF Len(row[2]) = 0 THEN Eval(e[2], row, pos, env) ELSE X("TypeError")
    \* the concatenation of strings and values
    [] e[1] = "cat" -> LET vs == EvalAll(e[2], row, pos, env, 1) IN
         IF IsExc(vs) THEN vs
         ELSE IF \E j \in 1..Len(vs[2]) : Tag(vs[2][j]) \notin {"i", "s"} THEN U
         ELSE <<"s", Strs(vs[2])>>
    [] e[1] = "t"   -> LET vs == EvalAll(e[2], row, pos, env, 1) IN IF IsExc(vs) THEN vs ELSE Tup(vs[2])
    [] e[1] = "l"   -> LET vs == EvalAll(e[2], row, pos, env, 1) IN IF IsExc(vs) THEN vs ELSE Lst(vs[2])
    \* pipelines as arguments of a call: written there, the value of a variable, a parameter passed on
    [] e[1] = "pv"  -> <<"pipe", e[2], e[3]>>
    [] e[1] = "pg"  -> IF e[2] \in DOMAIN env.lex \/ e[2] \in env.dyn \/ e[2] \notin DOMAIN env.g THEN U
                       ELSE IF env.g[e[2]][1] # "pipe" THEN U ELSE env.g[e[2]]
    [] e[1] = "pw"  -> IF e[2] \in DOMAIN env.lex THEN env.lex[e[2]] ELSE U
EvalAll(es, row, pos, env, k) ==
  IF k > Len(es) THEN Tup(<<>>)
  ELSE LET v == Eval(es[k], row, pos, env) IN
       IF IsExc(v) THEN v
       ELSE LET r == EvalAll(es, row, pos, env, k + 1) IN IF IsExc(r) THEN r ELSE Tup(<<v>> \o r[2])

(* Reductions: f applied to an accumulator (None when there is none yet) and a value. *)
NonNegInts(a, b) == Tag(a) = "i" /\ Tag(b) = "i" /\ a[2] >= 0 /\ b[2] >= 0
Reduce(f, acc, x) ==
  IF f = "count" THEN (IF acc = None THEN I(1) ELSE Add(acc, I(1)))
  ELSE IF f = "concat" THEN (IF acc = None THEN Lst(<<x>>) ELSE Lst(Append(acc[2], x)))
  ELSE IF f = "last" THEN x
  ELSE IF f = "sub"
       THEN IF acc = None THEN x
            ELSE IF Tag(acc) = "i" /\ Tag(x) = "i" THEN I(acc[2] - x[2])
            ELSE IF Tag(acc) = "b" \/ Tag(x) = "b" THEN U ELSE X("TypeError")
  ELSE IF acc = None THEN x
  ELSE CASE f = "+"   -> Add(acc, x)
         [] f = "*"   -> Mul(acc, x)
         [] f = "max" -> MaxV(acc, x)
         [] f = "min" -> MinV(acc, x)
         [] f = "and" -> IF Truthy(acc) THEN x ELSE acc
         [] f = "or"  -> IF Truthy(acc) THEN acc ELSE x
         [] f = "^"   -> IF NonNegInts(acc, x) THEN I(acc[2] ^^ x[2]) ELSE U
         [] f = "&"   -> IF NonNegInts(acc, x) THEN I(acc[2] & x[2]) ELSE U
         [] f = "|"   -> IF NonNegInts(acc, x) THEN I(acc[2] | x[2]) ELSE U

RECURSIVE FoldRow(_, _, _, _)
FoldRow(f, acc, s, k) == IF k > Len(s) THEN acc
                         ELSE LET v == Reduce(f, acc, s[k]) IN IF IsExc(v) THEN v ELSE FoldRow(f, v, s, k + 1)

(* Item made of the value of a function *)
ValueItem(v) == IF Tag(v) = "X" THEN Err(v[2]) ELSE Row(AsRow(v))
(* Result when a function evaluated to an exception *)
Fail(st, v) == IF Tag(v) = "U" THEN Res(st, <<>>, "U") ELSE Res(st, <<Err(v[2])>>, "")

ExpandElems(v) == IF IsRowTag(v) THEN v[2] ELSE <<v>>
RowItems(vs) == [k \in 1..Len(vs) |-> Row(AsRow(vs[k]))]

Key(r) == Tup(r[2])            \* a row as key of a set: lists and tuples of the same values are alike

(* ---------------------------------------------------------------- argument pipelines
   <<"lit", params, pipeline>> or <<"var", name>>                                                     *)
ArgPipe(pa, env) ==
  IF pa[1] = "lit" THEN [ok |-> TRUE, params |-> pa[2], pipe |-> pa[3], env |-> env]
  ELSE IF pa[2] \in DOMAIN env.lex \/ pa[2] \in env.dyn \/ pa[2] \notin DOMAIN env.g
       THEN [ok |-> FALSE, params |-> <<>>, pipe |-> <<>>, env |-> env]
  ELSE IF env.g[pa[2]][1] # "pipe" THEN [ok |-> FALSE, params |-> <<>>, pipe |-> <<>>, env |-> env]
  ELSE [ok |-> TRUE, params |-> env.g[pa[2]][2], pipe |-> env.g[pa[2]][3],
        env |-> [env EXCEPT !.lex = EmptyFcn, !.dyn = env.dyn \cup DOMAIN env.lex]]

(* binding of parameters in a call: positional, then named; the rest is None. *)
CallBinding(params, args, kwnames, kwvals) ==
  [p \in {params[k] : k \in 1..Len(params)} |->
     LET k == IndexOf(params, p) IN
     IF k <= Len(args) THEN args[k]
     ELSE IF IndexOf(kwnames, p) > 0 THEN kwvals[IndexOf(kwnames, p)]
     ELSE None]

(* ---------------------------------------------------------------- initial states of operators *)
RECURSIVE InitOp(_, _), InitData(_, _), InitPipe(_, _), SetupBad(_, _, _), SetupBadPipe(_, _),
          StepOp(_, _, _, _), FlushOp(_, _, _), PushAll(_, _, _, _, _), FlushFrom(_, _, _, _),
          RunPipe(_, _), SourceItems(_, _), RunUnion(_, _, _, _), StepBranches(_, _, _, _, _, _), FlushData(_, _, _),
          FlushBranches(_, _, _, _)

CallTarget(op, env) ==   \* what a call runs: [ok, pipe, env]; bad when it is refused
  LET vs == EvalAll(op.args, Tup(<<>>), 0, env, 1)
      kv == EvalAll(op.kwvals, Tup(<<>>), 0, env, 1)
      isparam == op.name \in DOMAIN env.lex /\ (IF op.name \in DOMAIN env.lex THEN env.lex[op.name][1] = "pipe" ELSE FALSE)
      ap == IF isparam   \* a parameter whose argument is a pipeline: this runs outside the scope of the parameter
            THEN [ok |-> TRUE, params |-> env.lex[op.name][2], pipe |-> env.lex[op.name][3],
                  env |-> [env EXCEPT !.lex = EmptyFcn, !.dyn = env.dyn \cup DOMAIN env.lex]]
            ELSE ArgPipe(<<"var", op.name>>, env) IN
  IF ~isparam /\ (op.name \in DOMAIN env.lex \/ op.name \in env.dyn) THEN [ok |-> "U", pipe |-> <<>>, env |-> env]
  ELSE IF IsExc(vs) THEN [ok |-> IF Tag(vs) = "U" THEN "U" ELSE "kill", pipe |-> <<>>, env |-> env]
  ELSE IF IsExc(kv) THEN [ok |-> IF Tag(kv) = "U" THEN "U" ELSE "kill", pipe |-> <<>>, env |-> env]
  ELSE IF ~ap.ok THEN [ok |-> "kill", pipe |-> <<>>, env |-> env]
  ELSE IF Len(vs[2]) + Len(kv[2]) > Len(ap.params) THEN [ok |-> "kill", pipe |-> <<>>, env |-> env]
  ELSE IF \E j \in 1..Len(op.kwnames) : LET i == IndexOf(ap.params, op.kwnames[j]) IN i = 0 \/ i <= Len(vs[2])
       THEN [ok |-> "kill", pipe |-> <<>>, env |-> env]
  ELSE [ok |-> "", pipe |-> ap.pipe, env |-> Bind(ap.env, CallBinding(ap.params, vs[2], op.kwnames, kv[2]))]

\* state of an operator: n rows received so far, d the rest
InitOp(op, env) == [n |-> 0, d |-> InitData(op, env)]
InitData(op, env) ==
  CASE op.op \in {"map", "select"}          -> 0
    [] op.op = "head"                       -> [n |-> 0]
    [] op.op \in {"tail", "sort", "reverse"} -> [s |-> <<>>]
    [] op.op = "unique"                     -> [s |-> <<>>]
    [] op.op \in {"expand", "squish"}       -> [n |-> 0]
    [] op.op = "window"                     -> [s |-> <<>>]
    [] op.op = "red"                        -> [groups |-> <<>>, accs |-> <<>>]
    [] op.op = "args"                       -> [s |-> <<>>]
    [] op.op = "union"                      -> [n |-> 0]
    [] op.op \in {"intersect", "difference", "filter", "join"} -> [loaded |-> FALSE, s |-> <<>>]
    [] op.op = "case"                       -> [b |-> [k \in 1..Len(op.branches) |->
                                                         InitPipe(op.branches[k][2][3], env)]]
    [] op.op = "call"                       -> LET t == CallTarget(op, env) IN
                                               [t |-> t, sts |-> IF t.ok = "" THEN InitPipe(t.pipe, t.env) ELSE <<>>]
    [] OTHER                                -> [n |-> 0]
InitPipe(pipe, env) == [k \in 1..Len(pipe) |-> InitOp(pipe[k], env)]

(* ---------------------------------------------------------------- refusals before anything runs *)
SourceOps == {"gen", "rows", "load"}
SetupBad(op, first, env) ==
  CASE op.op \in {"head", "tail"} -> IF op.n = 0 THEN "kill" ELSE ""
    [] op.op = "gen"  -> IF ~first THEN "kill" ELSE ""
    [] op.op = "load" -> IF ~first THEN "kill"
                         ELSE IF op.name \in DOMAIN env.lex \/ op.name \in env.dyn THEN "U"
                         ELSE IF op.name \notin DOMAIN env.g THEN "kill"
                         ELSE IF env.g[op.name][1] # "res" THEN "kill" ELSE ""
    [] op.op = "window" -> IF op.kind # "p" /\ op.n < 1 THEN "kill" ELSE ""
    [] op.op = "args" -> LET ap == ArgPipe(op.arg, env) IN
                         IF ~ap.ok THEN "kill"
                         ELSE IF Len(ap.params) = 0 \/ (op.all /\ Len(ap.params) # 1) THEN "kill" ELSE ""
    [] op.op \in {"intersect", "union"} ->
         IF \A k \in 1..Len(op.args) : ArgPipe(op.args[k], env).ok THEN "" ELSE "kill"
    [] op.op \in {"difference", "filter", "join"} -> IF ArgPipe(op.arg, env).ok THEN "" ELSE "kill"
    [] op.op = "call" -> LET t == CallTarget(op, env) IN
                         IF t.ok # "" THEN t.ok ELSE SetupBadPipe(t.pipe, t.env)
    [] op.op = "case" -> IF \E k \in 1..Len(op.branches) : SetupBadPipe(op.branches[k][2][3], env) = "kill"
                         THEN "kill"
                         ELSE IF \E k \in 1..Len(op.branches) : SetupBadPipe(op.branches[k][2][3], env) = "U"
                         THEN "U" ELSE ""
    [] OTHER -> ""
SetupBadPipe(pipe, env) ==
  LET bad == {SetupBad(pipe[k], k = 1, env) : k \in 1..Len(pipe)} \ {""} IN
  IF bad = {} THEN "" ELSE IF "U" \in bad THEN "U" ELSE "kill"

(* ---------------------------------------------------------------- pushing items *)
(* Push items into operator k of the pipeline, and what comes out into the following ones.
   After the last operator, items are output. *)
PushAll(pipe, k, sts, items, env) ==
  IF items = <<>> THEN Res(sts, <<>>, "")
  ELSE IF k > Len(pipe) THEN Res(sts, items, "")
  ELSE LET r == StepOp(pipe[k], sts[k], items[1], env)
           sts1 == [sts EXCEPT ![k] = r.st]
           down == PushAll(pipe, k + 1, sts1, r.out, env) IN
       IF down.kill # "" \/ r.kill # ""
       THEN Res(down.st, down.out, IF down.kill # "" THEN down.kill ELSE r.kill)
       ELSE LET rest == PushAll(pipe, k, down.st, SubSeq(items, 2, Len(items)), env) IN
            Res(rest.st, down.out \o rest.out, rest.kill)

(* End of the input of operator k: it produces what it kept, then the next one is told. *)
FlushFrom(pipe, k, sts, env) ==
  IF k > Len(pipe) THEN Res(sts, <<>>, "")
  ELSE LET f == FlushOp(pipe[k], sts[k], env)
           down == PushAll(pipe, k + 1, sts, f.out, env) IN
       IF down.kill # "" \/ f.kill # ""
       THEN \* A failure at the end of args does not keep the following operators from delivering what they have: not specified.
            Res(down.st, down.out, IF pipe[k].op = "args" THEN "U" ELSE IF down.kill # "" THEN down.kill ELSE f.kill)
       ELSE LET rest == FlushFrom(pipe, k + 1, down.st, env) IN
            Res(rest.st, down.out \o rest.out, rest.kill)

(* What the first operator of a pipeline produces when the pipeline is run. *)
SourceItems(op, env) ==
  CASE op.op = "gen"  -> Res(0, [k \in 1..op.n |-> Row(Tup(<<I(op.start + k - 1)>>))], "")
    [] op.op = "genv" -> \* gen with a computed count
                         LET c == Eval(op.e, Tup(<<>>), 0, env) IN
                         IF Tag(c) = "i" /\ c[2] > 0
                         THEN Res(0, [k \in 1..c[2] |-> Row(Tup(<<I(op.start + k - 1)>>))], "")
                         ELSE IF Tag(c) = "i" THEN Res(0, <<>>, "U")
                         ELSE IF IsExc(c) /\ Tag(c) = "U" THEN Res(0, <<>>, "U")
                         ELSE Res(0, <<>>, "kill")
    [] op.op = "rows" -> Res(0, [k \in 1..Len(op.rows) |-> Row(AsRow(op.rows[k]))], "")
    [] op.op = "load" -> Res(0, env.g[op.name][2], "")
    [] op.op = "map"  -> LET v == Eval(op.e, Tup(<<>>), 0, env) IN
                         IF Tag(v) = "U" THEN Res(0, <<>>, "U") ELSE Res(0, <<ValueItem(v)>>, "")
    [] op.op = "call" -> LET t == CallTarget(op, env) IN RunPipe(t.pipe, t.env)
    [] OTHER          -> Res(0, <<>>, "U")

RunPipe(pipe, env) ==
  LET bad == SetupBadPipe(pipe, env) IN
  IF bad # "" THEN Res(<<>>, <<>>, bad)
  ELSE IF pipe[1].op \in {"sort", "unique", "args", "window"} THEN Res(<<>>, <<>>, "kill")   \* these need input
  ELSE LET src == SourceItems(pipe[1], env)
           sts == InitPipe(pipe, env)
           run == PushAll(pipe, 2, sts, src.out, env) IN
       IF run.kill # "" \/ src.kill # ""
       THEN Res(<<>>, run.out, IF run.kill # "" THEN run.kill ELSE src.kill)
       ELSE LET f == FlushFrom(pipe, 2, run.st, env) IN Res(<<>>, run.out \o f.out, f.kill)

RowsOf(items) == SelectSeq(items, LAMBDA it : ~IsErr(it))

(* rows of an argument pipeline which is only looked into, as keys *)
SideRows(pa, env) ==
  LET ap == ArgPipe(pa, env)
      r == RunPipe(ap.pipe, ap.env)
      rows == RowsOf(r.out) IN
  [kill |-> r.kill, rows |-> [k \in 1..Len(rows) |-> Key(rows[k][2])]]

RunUnion(args, k, env, acc) ==
  IF k > Len(args) THEN Res(0, acc, "")
  ELSE LET ap == ArgPipe(args[k], env)
           r == RunPipe(ap.pipe, ap.env) IN
       IF r.kill # "" THEN Res(0, acc \o r.out, r.kill) ELSE RunUnion(args, k + 1, env, acc \o r.out)

(* intersection of the argument pipelines: multiset, as a sequence of keys *)
RECURSIVE InterKeys(_, _, _, _)
InterKeys(args, k, env, common) ==
  IF k > Len(args) THEN [kill |-> "", keys |-> common]
  ELSE LET s == SideRows(args[k], env) IN
       IF s.kill # "" THEN [kill |-> s.kill, keys |-> <<>>]
       ELSE IF \E j \in 1..Len(s.rows) : ~Hashable(s.rows[j]) THEN [kill |-> "kill", keys |-> <<>>]
       ELSE InterKeys(args, k + 1, env,
              IF k = 1 THEN s.rows
              ELSE LET keep == {j \in 1..Len(common) :
                                  Cardinality({i \in 1..j : common[i] = common[j]}) <= Count(s.rows, common[j])}
                   IN [j \in 1..Cardinality(keep) |->
                        common[CHOOSE i \in keep : Cardinality({h \in keep : h <= i}) = j]])

(* ---------------------------------------------------------------- operators: one row *)
ArgsRun(op, vals, env) ==
  LET ap == ArgPipe(op.arg, env) IN
  RunPipe(ap.pipe, Bind(ap.env, [p \in {ap.params[k] : k \in 1..Len(ap.params)} |->
                                   vals[IndexOf(ap.params, p)]]))

StepBranches(op, st, row, pos, env, k) ==
  IF k > Len(op.branches) THEN Res(st, <<>>, "")
  ELSE LET p == Eval(op.branches[k][1], row, pos, env) IN
       IF IsExc(p) THEN Fail(st, p)
       ELSE IF ~Truthy(p) THEN StepBranches(op, st, row, pos, env, k + 1)
       ELSE LET r == PushAll(op.branches[k][2][3], 1, st.b[k], <<Row(row)>>, env) IN
            Res([st EXCEPT !.b[k] = r.st], r.out, r.kill)

StepRow(op, st, row, pos, env) ==
  CASE op.op = "map" ->
         LET v == Eval(op.e, row, pos, env) IN
         IF IsExc(v) THEN Fail(st, v) ELSE Res(st, <<Row(AsRow(v))>>, "")
    [] op.op = "select" ->
         LET v == Eval(op.e, row, pos, env) IN
         IF IsExc(v) THEN Fail(st, v)
         ELSE Res(st, IF Truthy(v) THEN <<Row(row)>> ELSE <<>>, "")
    [] op.op = "head" ->
         Res(st,
             IF op.n > 0 THEN (IF pos < op.n THEN <<Row(row)>> ELSE <<>>)
             ELSE (IF pos >= -op.n THEN <<Row(row)>> ELSE <<>>), "")
    [] op.op = "tail" ->
         IF op.n > 0
         THEN LET q == Append(st.s, row) IN
              Res([s |-> IF Len(q) > op.n THEN Tail(q) ELSE q], <<>>, "")
         ELSE LET q == Append(st.s, row) IN
              IF Len(q) > -op.n THEN Res([s |-> Tail(q)], <<Row(q[1])>>, "") ELSE Res([s |-> q], <<>>, "")
    [] op.op = "sort" ->
         IF op.e[1] = "none" THEN Res([s |-> Append(st.s, <<row, row>>)], <<>>, "")
         ELSE LET v == Eval(op.e, row, pos, env) IN
              IF IsExc(v) THEN Fail(st, v) ELSE Res([s |-> Append(st.s, <<v, row>>)], <<>>, "")
    [] op.op = "reverse" -> Res([s |-> <<row>> \o st.s], <<>>, "")
    [] op.op = "unique" ->
         IF op.c THEN (IF st.s # <<>> /\ st.s[1] = row THEN Res(st, <<>>, "") ELSE Res([s |-> <<row>>], <<Row(row)>>, ""))
         ELSE IF ~Hashable(row) THEN Res(st, <<>>, "kill")
         ELSE IF IndexOf(st.s, row) > 0 THEN Res(st, <<>>, "") ELSE Res([s |-> Append(st.s, row)], <<Row(row)>>, "")
    [] op.op = "expand" ->
         IF op.n < 0
         THEN Res(st, RowItems(IF Len(row[2]) = 1 THEN ExpandElems(row[2][1]) ELSE row[2]), "")
         ELSE IF op.n >= Len(row[2]) THEN Res(st, <<Row(row)>>, "")
         ELSE LET es == ExpandElems(row[2][op.n + 1]) IN
              Res(st, [k \in 1..Len(es) |->
                         Row(<<Tag(row), SubSeq(row[2], 1, op.n) \o <<es[k]>> \o SubSeq(row[2], op.n + 2, Len(row[2]))>>)], "")
    [] op.op = "squish" ->
         LET v == FoldRow(op.f, None, row[2], 1) IN
         IF IsExc(v) THEN Fail(st, v) ELSE Res(st, <<Row(AsRow(v))>>, "")
    [] op.op = "window" ->
         LET u == UnwrapRow(row) IN
         (CASE op.kind = "o" ->
                LET w == Append(st.s, u)
                    full == IF Len(w) > op.n THEN Tail(w) ELSE w IN
                Res([s |-> full], IF Len(full) = op.n THEN <<Row(Tup(full))>> ELSE <<>>, "")
           [] op.kind = "d" ->
                LET w == Append(st.s, u) IN
                IF Len(w) = op.n THEN Res([s |-> <<>>], <<Row(Tup(w))>>, "") ELSE Res([s |-> w], <<>>, "")
           [] op.kind = "p" ->
                LET v == Eval(op.e, row, pos, env) IN
                IF IsExc(v) THEN Fail(st, v)
                ELSE IF Truthy(v) /\ st.s # <<>> THEN Res([s |-> <<u>>], <<Row(Tup(st.s))>>, "")
                ELSE Res([s |-> Append(st.s, u)], <<>>, ""))
    [] op.op = "red" ->
         LET n == Len(op.fs)
             gpos == SelectSeq([k \in 1..n |-> k], LAMBDA k : op.fs[k] = ".")
             dpos == SelectSeq([k \in 1..n |-> k], LAMBDA k : op.fs[k] # ".") IN
         IF Len(row[2]) < n THEN Res(st, <<Err("short")>>, "")
         ELSE LET group == [k \in 1..Len(gpos) |-> row[2][gpos[k]]]
                  g == IndexOf(st.groups, group)
                  acc == IF g = 0 THEN [k \in 1..n |-> None] ELSE st.accs[g]
                  new == [k \in 1..n |-> IF op.fs[k] = "." THEN row[2][k] ELSE Reduce(op.fs[k], acc[k], row[2][k])]
                  bad == {k \in 1..n : op.fs[k] # "." /\ IsExc(new[k])} IN
              IF \E k \in 1..Len(gpos) : ~Hashable(row[2][gpos[k]]) THEN Res(st, <<>>, "kill")
              \* concat extends what it has before a later function fails
              ELSE IF bad # {} /\ \E k \in 1..n : op.fs[k] = "concat" THEN Res(st, <<>>, "U")
              ELSE IF bad # {} THEN Fail(st, new[CHOOSE k \in bad : \A j \in bad : k <= j])
              ELSE Res(IF g = 0 THEN [groups |-> Append(st.groups, group), accs |-> Append(st.accs, new)]
                       ELSE [st EXCEPT !.accs[g] = new],
                       IF op.inc THEN <<Row(Tup(row[2] \o [k \in 1..Len(dpos) |-> new[dpos[k]]]))>> ELSE <<>>, "")
    [] op.op = "args" ->
         LET ap == ArgPipe(op.arg, env)
             vals == Append(st.s, UnwrapRow(row)) IN
         IF op.all \/ Len(vals) < Len(ap.params) THEN Res([s |-> vals], <<>>, "")
         ELSE LET r == ArgsRun(op, vals, env) IN Res([s |-> <<>>], r.out, r.kill)
    [] op.op = "union" -> Res(st, <<Row(row)>>, "")
    [] op.op \in {"difference", "intersect"} ->
         LET side == IF st.loaded THEN [kill |-> "", keys |-> st.s]
                     ELSE IF op.op = "intersect" THEN InterKeys(op.args, 1, env, <<>>)
                     ELSE LET s == SideRows(op.arg, env) IN
                          [kill |-> IF s.kill # "" THEN s.kill
                                    ELSE IF \E j \in 1..Len(s.rows) : ~Hashable(s.rows[j]) THEN "kill" ELSE "",
                           keys |-> s.rows] IN
         IF side.kill # "" THEN Res(st, <<>>, side.kill)
         ELSE IF ~Hashable(row) THEN Res(st, <<>>, "kill")
         ELSE LET k == IndexOf(side.keys, row)
                  st1 == [loaded |-> TRUE, s |-> IF k = 0 THEN side.keys ELSE RemoveAt(side.keys, k)] IN
              Res(st1, IF (k = 0) = (op.op = "difference") THEN <<Row(row)>> ELSE <<>>, "")
    [] op.op = "filter" ->
         LET side == IF st.loaded THEN [kill |-> "", rows |-> st.s] ELSE SideRows(op.arg, env)
             st1 == [loaded |-> TRUE, s |-> side.rows]
             v == IF op.e[1] = "none" THEN Tup(row[2]) ELSE Eval(op.e, row, pos, env) IN
         IF side.kill # "" THEN Res(st, <<>>, side.kill)
         ELSE IF \E j \in 1..Len(side.rows) : ~Hashable(side.rows[j]) THEN Res(st, <<>>, "kill")
         ELSE IF IsExc(v) THEN Fail(st1, v)
         ELSE IF v = None THEN Res(st1, <<>>, "U")
         ELSE LET c == AsRow(v) IN
              IF ~Hashable(c) THEN Res(st1, <<>>, "kill")
              ELSE Res(st1, IF (IndexOf(side.rows, c) > 0) = op.keep THEN <<Row(row)>> ELSE <<>>, "")
    [] op.op = "join" ->
         LET side == IF st.loaded THEN [kill |-> "", rows |-> st.s] ELSE SideRows(op.arg, env)
             st1 == [loaded |-> TRUE, s |-> side.rows] IN
         IF side.kill # "" THEN Res(st, <<>>, side.kill)
         ELSE IF \E j \in 1..Len(side.rows) : side.rows[j][2] # <<>> /\ ~Hashable(side.rows[j][2][1]) THEN Res(st, <<>>, "kill")
         ELSE IF row[2] = <<>> THEN Res(st1, <<Err("other")>>, "")
         ELSE IF ~Hashable(row[2][1]) THEN Res(st1, <<>>, "kill")
         ELSE LET m == SelectSeq(side.rows, LAMBDA x : x[2] # <<>> /\ x[2][1] = row[2][1]) IN
              Res(st1, IF m = <<>> THEN (IF op.keep THEN <<Row(Tup(row[2]))>> ELSE <<>>)
                       ELSE [k \in 1..Len(m) |-> Row(Tup(row[2] \o Tail(m[k][2])))], "")
    [] op.op = "case" -> StepBranches(op, st, row, pos, env, 1)
    [] op.op = "call" -> LET r == PushAll(st.t.pipe, 1, st.sts, <<Row(row)>>, st.t.env) IN
                         Res([st EXCEPT !.sts = r.st], r.out, r.kill)
    [] OTHER -> Res(st, <<>>, "U")

StepOp(op, st, item, env) ==
  IF IsErr(item) THEN Res(st, <<item>>, "")
  ELSE LET r == StepRow(op, st.d, item[2], st.n, env) IN Res([n |-> st.n + 1, d |-> r.st], r.out, r.kill)

(* ---------------------------------------------------------------- operators: end of input *)
FlushBranches(op, st, env, k) ==
  IF k > Len(op.branches) THEN Res(st, <<>>, "")
  ELSE LET f == FlushFrom(op.branches[k][2][3], 1, st.b[k], env) IN
       IF f.kill # "" THEN f
       ELSE LET r == FlushBranches(op, st, env, k + 1) IN Res(st, f.out \o r.out, r.kill)

RECURSIVE PadTo(_, _)
PadTo(s, n) == IF Len(s) >= n THEN s ELSE PadTo(Append(s, None), n)

FlushOp(op, ost, env) == LET r == FlushData(op, ost.d, env) IN Res([ost EXCEPT !.d = r.st], r.out, r.kill)
FlushData(op, st, env) ==
  CASE op.op = "tail" -> Res(st, IF op.n > 0 THEN [k \in 1..Len(st.s) |-> Row(st.s[k])] ELSE <<>>, "")
    [] op.op = "sort" ->
         LET keys == [k \in 1..Len(st.s) |-> st.s[k][1]] IN
         IF Len(keys) > 1 /\ (~AllComparable(keys) \/ \E k \in 1..Len(keys) : HasBool(keys[k]))
         THEN Res(st, <<>>, "U")
         ELSE LET sorted == SortKeyed(st.s) IN Res(st, [k \in 1..Len(sorted) |-> Row(sorted[k][2])], "")
    [] op.op = "reverse" -> Res(st, [k \in 1..Len(st.s) |-> Row(st.s[k])], "")
    [] op.op = "window" ->
         (CASE op.kind = "o" ->
                \* the windows starting at the last rows, those not full at the time
                LET n == op.n
                    l == Len(st.s)
                    first == IF l = n THEN 2 ELSE 1 IN
                Res(st, [k \in 1..(l - first + 1) |-> Row(Tup(PadTo(SubSeq(st.s, first + k - 1, l), n)))], "")
           [] op.kind = "d" -> Res(st, IF st.s = <<>> THEN <<>> ELSE <<Row(Tup(PadTo(st.s, op.n)))>>, "")
           [] op.kind = "p" -> Res(st, IF st.s = <<>> THEN <<>> ELSE <<Row(Tup(st.s))>>, ""))
    [] op.op = "red" ->
         IF op.inc THEN Res(st, <<>>, "")
         ELSE IF \E k \in 1..Len(op.fs) : op.fs[k] = "."
         THEN Res(st, [g \in 1..Len(st.groups) |-> Row(Tup(st.accs[g]))], "")
         ELSE Res(st, <<Row(Tup(IF st.accs # <<>> THEN st.accs[1]
                                ELSE [k \in 1..Len(op.fs) |-> IF op.fs[k] = "count" THEN I(0) ELSE None]))>>, "")
    [] op.op = "args" ->
         IF st.s = <<>> THEN Res(st, <<>>, "")
         ELSE LET ap == ArgPipe(op.arg, env) IN
              ArgsRun(op, IF op.all THEN <<Lst(st.s)>> ELSE PadTo(st.s, Len(ap.params)), env)
    [] op.op = "union" -> RunUnion(op.args, 1, env, <<>>)
    [] op.op = "case" -> FlushBranches(op, st, env, 1)
    [] op.op = "call" -> FlushFrom(st.t.pipe, 1, st.sts, st.t.env)
    [] OTHER -> Res(st, <<>>, "")

=============================================================================
