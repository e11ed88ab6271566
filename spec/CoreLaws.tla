------------------------------ MODULE CoreLaws ------------------------------
(* The operator machines of Core against what the operators are defined to compute.

   Rows are pushed one by one into the pipeline <<first, second>>, the two machines running as in Core. At every
   point, what has come out so far followed by what would come out if the input ended here must be Out(second,
   Out(first, input)), where Out gives the output of an operator as a function of its whole input, written
   without reference to the machines. Explored for all pairs of operators (one of them of Family) and all inputs
   over Rows up to MaxLen.                                                                                    *)
EXTENDS Core

CONSTANTS Family, MaxLen
VARIABLES pipe, sts, inp, out, killed
vars == <<pipe, sts, inp, out, killed>>

Env0 == [g |-> EmptyFcn, lex |-> EmptyFcn, dyn |-> {}]
R1(n) == Tup(<<I(n)>>)
R2(a, b) == Tup(<<I(a), I(b)>>)
RowsIn == {R1(1), R1(2), R2(1, 2), R2(2, 1)}
A0 == <<"a", 0>>
C(n) == <<"c", I(n)>>
Side == <<"lit", <<>>, <<[op |-> "rows", rows |-> <<R1(1), R2(1, 2), R1(1), R2(1, 1)>>]>>>>
Side2 == <<"lit", <<>>, <<[op |-> "rows", rows |-> <<R1(1), R2(1, 2), R1(2)>>]>>>>

\* operators by family
Ops(f) ==
  CASE f = "S01" -> {[op |-> "map", e |-> <<"+", A0, C(1)>>], [op |-> "map", e |-> <<"t", <<A0, <<"len">>>>>>],
                     [op |-> "map", e |-> <<"t", <<<<"pos">>, A0>>>>],
                     [op |-> "select", e |-> <<"==", A0, C(1)>>],
                     [op |-> "head", n |-> 2], [op |-> "head", n |-> -1], [op |-> "tail", n |-> 2], [op |-> "tail", n |-> -1],
                     [op |-> "sort", e |-> <<"none">>], [op |-> "sort", e |-> <<"*", A0, C(-1)>>], [op |-> "reverse"],
                     [op |-> "unique", c |-> FALSE], [op |-> "unique", c |-> TRUE],
                     [op |-> "expand", n |-> -1], [op |-> "squish", f |-> "+"]}
    [] f = "S02" -> {[op |-> "union", args |-> <<Side, Side2>>], [op |-> "intersect", args |-> <<Side>>],
                     [op |-> "intersect", args |-> <<Side, Side2>>], [op |-> "difference", arg |-> Side],
                     [op |-> "filter", keep |-> TRUE, e |-> <<"none">>, arg |-> Side],
                     [op |-> "filter", keep |-> FALSE, e |-> A0, arg |-> Side],
                     [op |-> "join", keep |-> FALSE, arg |-> Side], [op |-> "join", keep |-> TRUE, arg |-> Side]}
    [] f = "S03" -> {[op |-> "red", inc |-> i, fs |-> fs] : i \in BOOLEAN,
                       fs \in {<<"+">>, <<"count">>, <<"sub">>, <<"concat">>, <<".", "+">>, <<"max", ".">>, <<".", ".">>, <<"min", "last">>}}
    [] f = "S04" -> {[op |-> "window", kind |-> k, n |-> n, e |-> <<"none">>] : k \in {"o", "d"}, n \in 1..3}
                    \cup {[op |-> "window", kind |-> "p", n |-> 0, e |-> <<"==", A0, C(1)>>]}
Families == {"S01", "S02", "S03", "S04"}
AnyOp == UNION {Ops(f) : f \in Families}

(* ---------------------------------------------------------------- what operators compute *)
Ev(e, r, pos) == Eval(e, r, pos, Env0)
Positions(s, P(_)) == LET ps == {k \in 1..Len(s) : P(k)} IN     \* ascending
                      [j \in 1..Cardinality(ps) |-> CHOOSE k \in ps : Cardinality({i \in ps : i <= k}) = j]
Pick(s, ps) == [j \in 1..Len(ps) |-> s[ps[j]]]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
PerRow(s, F(_, _)) == Concat([k \in 1..Len(s) |-> F(s[k], k)])
RowOrErr(v) == IF Tag(v) = "X" THEN Err(v[2]) ELSE Row(AsRow(v))
SideOf(pa) == [k \in 1..Len(pa[3][1].rows) |-> Key(pa[3][1].rows[k])]
UpTo(s, k) == SubSeq(s, 1, k)
CountUpTo(s, k) == Count(UpTo(s, k), s[k])
BagMin(ss, x) == LET ns == {Count(ss[k], x) : k \in 1..Len(ss)} IN CHOOSE n \in ns : \A m \in ns : n <= m

\* the value of a reduction over a sequence of values: an exception if any
RECURSIVE FoldV(_, _, _)
FoldV(f, vs, k) == IF k = 0 THEN None
                   ELSE LET a == FoldV(f, vs, k - 1) IN IF IsExc(a) THEN a ELSE Reduce(f, a, vs[k])
Fold(f, vs) == FoldV(f, vs, Len(vs))

DataPos(op) == SelectSeq([k \in 1..Len(op.fs) |-> k], LAMBDA k : op.fs[k] # ".")
GroupPos(op) == SelectSeq([k \in 1..Len(op.fs) |-> k], LAMBDA k : op.fs[k] = ".")
GroupOf(op, r) == Pick(r[2], GroupPos(op))
\* Rows which are long enough and whose reduction with the earlier ones of the group does not fail
RECURSIVE GoodRows(_, _, _)
GoodRows(op, s, k) ==
  IF k = 0 THEN <<>>
  ELSE LET good == GoodRows(op, s, k - 1)
           r == s[k] IN
       IF Len(r[2]) < Len(op.fs) THEN good
       ELSE LET g == SelectSeq(Append(good, r), LAMBDA x : GroupOf(op, x) = GroupOf(op, r)) IN
            IF \E j \in 1..Len(op.fs) : op.fs[j] # "." /\ IsExc(Fold(op.fs[j], [i \in 1..Len(g) |-> g[i][2][j]]))
            THEN good ELSE Append(good, r)
RedError(op, s, k) == \* the error of row k, given that it is not good
  IF Len(s[k][2]) < Len(op.fs) THEN Err("short") ELSE Err("TypeError")
RedVals(op, g) == [j \in 1..Len(op.fs) |-> IF op.fs[j] = "." THEN g[1][2][j]
                                         ELSE Fold(op.fs[j], [i \in 1..Len(g) |-> g[i][2][j]])]

(* rows -> items. Errors among the items produced come at the point the failing row was processed, i.e. before
   what is produced at the end. *)
OutRows(op, s) ==
  CASE op.op = "map"    -> [k \in 1..Len(s) |-> RowOrErr(Ev(op.e, s[k], k - 1))]
    [] op.op = "select" -> PerRow(s, LAMBDA r, k : LET v == Ev(op.e, r, k - 1) IN
                                             IF IsExc(v) THEN <<RowOrErr(v)>> ELSE IF Truthy(v) THEN <<Row(r)>> ELSE <<>>)
    [] op.op = "head"   -> RowItems(IF op.n > 0 THEN UpTo(s, MinN(op.n, Len(s))) ELSE SubSeq(s, 1 - op.n, Len(s)))
    [] op.op = "tail"   -> RowItems(IF op.n > 0 THEN SubSeq(s, MaxN(1, Len(s) - op.n + 1), Len(s)) ELSE UpTo(s, MaxN(0, Len(s) + op.n)))
    [] op.op = "reverse" -> RowItems(Rev(s))
    [] op.op = "unique" -> RowItems(Pick(s, IF op.c THEN Positions(s, LAMBDA k : k = 1 \/ s[k - 1] # s[k])
                                            ELSE Positions(s, LAMBDA k : CountUpTo(s, k) = 1)))
    [] op.op = "expand" -> PerRow(s, LAMBDA r, k : RowItems(IF Len(r[2]) = 1 THEN ExpandElems(r[2][1]) ELSE r[2]))
    [] op.op = "squish" -> [k \in 1..Len(s) |-> RowOrErr(Fold(op.f, s[k][2]))]
    [] op.op = "union"  -> RowItems(s \o Concat([k \in 1..Len(op.args) |-> SideOf(op.args[k])]))
    [] op.op = "intersect" -> LET sides == [k \in 1..Len(op.args) |-> SideOf(op.args[k])] IN
                              RowItems(Pick(s, Positions(s, LAMBDA k : CountUpTo(s, k) <= BagMin(sides, s[k]))))
    [] op.op = "difference" -> RowItems(Pick(s, Positions(s, LAMBDA k : CountUpTo(s, k) > Count(SideOf(op.arg), s[k]))))
    [] op.op = "filter" -> PerRow(s, LAMBDA r, k :
                             LET v == IF op.e = <<"none">> THEN r ELSE Ev(op.e, r, 0) IN
                             IF IsExc(v) THEN <<RowOrErr(v)>>
                             ELSE IF (Count(SideOf(op.arg), AsRow(v)) > 0) = op.keep THEN <<Row(r)>> ELSE <<>>)
    [] op.op = "join"   -> PerRow(s, LAMBDA r, k :
                             LET side == SideOf(op.arg)
                                 m == Positions(side, LAMBDA j : side[j][2][1] = r[2][1]) IN
                             IF m = <<>> THEN (IF op.keep THEN <<Row(r)>> ELSE <<>>)
                             ELSE [j \in 1..Len(m) |-> Row(Tup(r[2] \o Tail(side[m[j]][2])))])
    [] op.op = "red" /\ op.inc ->
         PerRow(s, LAMBDA r, k : LET good == GoodRows(op, s, k) IN
           IF Len(good) = Len(GoodRows(op, s, k - 1)) THEN <<RedError(op, s, k)>>
           ELSE LET g == SelectSeq(good, LAMBDA x : GroupOf(op, x) = GroupOf(op, r)) IN
                <<Row(Tup(r[2] \o Pick(RedVals(op, g), DataPos(op))))>>)
    [] op.op = "red" ->
         LET good == GoodRows(op, s, Len(s))
             errs == PerRow(s, LAMBDA r, k : IF Len(GoodRows(op, s, k)) = Len(GoodRows(op, s, k - 1)) THEN <<RedError(op, s, k)>> ELSE <<>>)
             firsts == Positions(good, LAMBDA k : \A j \in 1..(k - 1) : GroupOf(op, good[j]) # GroupOf(op, good[k])) IN
         IF GroupPos(op) = <<>> /\ good = <<>>
         THEN errs \o <<Row(Tup([j \in 1..Len(op.fs) |-> IF op.fs[j] = "count" THEN I(0) ELSE None]))>>
         ELSE errs \o [j \in 1..Len(firsts) |->
                         Row(Tup(RedVals(op, SelectSeq(good, LAMBDA x : GroupOf(op, x) = GroupOf(op, good[firsts[j]])))))]
    [] op.op = "window" /\ op.kind = "o" ->
         [k \in 1..Len(s) |-> Row(Tup([j \in 1..op.n |-> IF k + j - 1 <= Len(s) THEN UnwrapRow(s[k + j - 1]) ELSE None]))]
    [] op.op = "window" /\ op.kind = "d" ->
         [k \in 1..((Len(s) + op.n - 1) \div op.n) |->
            Row(Tup([j \in 1..op.n |-> LET i == (k - 1) * op.n + j IN IF i <= Len(s) THEN UnwrapRow(s[i]) ELSE None]))]
    [] op.op = "window" ->
         LET good == SelectSeq(s, LAMBDA r : ~IsExc(Ev(op.e, r, 0)))
             starts == Positions(good, LAMBDA k : k = 1 \/ Truthy(Ev(op.e, good[k], 0))) IN
         [j \in 1..Len(starts) |->
            LET last == IF j = Len(starts) THEN Len(good) ELSE starts[j + 1] - 1 IN
            Row(Tup([i \in 1..(last - starts[j] + 1) |-> UnwrapRow(good[starts[j] + i - 1])]))]

(* sort is given by a property rather than by a function *)
SortKey(op, r) == IF op.e = <<"none">> THEN r ELSE Ev(op.e, r, 0)
\* the place of an element: after those with smaller keys and those before it with an equal key
IsStableSort(op, s, t) ==
  /\ Len(t) = Len(s)
  /\ \A a \in 1..Len(s) :
       LET place == Cardinality({b \in 1..Len(s) : LET c == Cmp(SortKey(op, s[b]), SortKey(op, s[a])) IN
                                                  c = -1 \/ (c = 0 /\ b <= a)}) IN
       t[place] = s[a]

(* ---------------------------------------------------------------- the exploration *)
Init == /\ \E a \in AnyOp, b \in AnyOp : (a \in Ops(Family) \/ b \in Ops(Family)) /\ pipe = <<a, b>>
        /\ sts = InitPipe(pipe, Env0) /\ inp = <<>> /\ out = <<>> /\ killed = FALSE
Push(r) == LET p == PushAll(pipe, 1, sts, <<Row(r)>>, Env0) IN
           /\ inp' = Append(inp, r) /\ out' = out \o p.out /\ sts' = p.st /\ killed' = (p.kill # "") /\ pipe' = pipe
Next == ~killed /\ Len(inp) < MaxLen /\ \E r \in RowsIn : Push(r)
Spec == Init /\ [][Next]_vars

\* what the second operator gets from the first, separately (the first alone)
Alone(op) == LET st == InitPipe(<<op>>, Env0)
                 p == PushAll(<<op>>, 1, st, RowItems(inp), Env0)
                 f == FlushFrom(<<op>>, 1, p.st, Env0) IN
             [items |-> p.out \o f.out, kill |-> IF p.kill # "" THEN p.kill ELSE f.kill]
Whole == LET f == FlushFrom(pipe, 1, sts, Env0) IN [items |-> out \o f.out, kill |-> f.kill]

\* Items of kind error go straight through: they can only be overtaken by rows kept back. So rows and errors are
\* compared separately.
Rows(items) == LET r == RowsOf(items) IN [k \in 1..Len(r) |-> r[k][2]]
Errs(items) == SelectSeq(items, IsErr)

FirstLaw ==
  killed \/ LET op == pipe[1]
                a == Alone(op) IN
            a.kill # "" \/
            IF op.op = "sort" THEN IsStableSort(op, inp, Rows(a.items)) ELSE a.items = OutRows(op, inp)
SecondLaw ==
  killed \/ LET a == Alone(pipe[1])
                w == Whole
                mid == Rows(a.items)
                op == pipe[2] IN
            a.kill # "" \/ w.kill # "" \/
            IF op.op = "sort" THEN LET good == SelectSeq(mid, LAMBDA r : ~IsExc(SortKey(op, r))) IN IsStableSort(op, good, Rows(w.items))
            ELSE /\ Rows(w.items) = Rows(OutRows(op, mid))
                 /\ Len(Errs(w.items)) = Len(Errs(a.items)) + Len(Errs(OutRows(op, mid)))
=============================================================================
