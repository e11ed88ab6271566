----------------------------- MODULE ForkTrace -----------------------------
(* Recorded fork commands, judged: what was printed has to be an interleaving of what the branches produce. The
   branches are given as items (what their steps were), or as the pipeline, whose meaning is given by Core, with
   the values it was forked for. *)
EXTENDS Core, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES n
vars == <<n>>

Env == [g |-> [v \in {} |-> <<>>], lex |-> EmptyFcn, dyn |-> {}]
Globals(r) == [Env EXCEPT !.g = [v \in {r.vars[j].name : j \in 1..Len(r.vars)} |->
                  LET j == CHOOSE j \in 1..Len(r.vars) : r.vars[j].name = v IN
                  IF "params" \in DOMAIN r.vars[j] THEN <<"pipe", r.vars[j].params, r.vars[j].pipe>> ELSE <<"val", r.vars[j].v>>]]
AnyErr == <<"E", "*">>
ShownItems(items) == [j \in 1..Len(items) |-> IF IsErr(items[j]) THEN items[j] ELSE Row(Key(items[j][2]))]
Branch(r, id) ==
  LET env == Globals(r)
      ap == ArgPipe(r.arg, env)
      e == IF Len(ap.params) = 0 THEN ap.env ELSE Bind(ap.env, ap.params[1] :> id)
      bad == SetupBadPipe(ap.pipe, e)
      x == RunPipe(ap.pipe, e) IN
  IF bad # "" THEN [u |-> TRUE, items |-> <<>>]
  ELSE IF x.kill \notin {"", "kill"} THEN [u |-> TRUE, items |-> <<>>]
  ELSE [u |-> FALSE, items |-> x.out \o (IF x.kill = "kill" THEN <<AnyErr>> ELSE <<>>)]

Given(r) == [b \in 1..Len(r.branches) |-> [u |-> FALSE, items |-> r.branches[b]]]
Branches(r) == IF "branches" \in DOMAIN r THEN Given(r) ELSE [b \in 1..Len(r.ids) |-> Branch(r, r.ids[b])]

Same(want, got) == want = got \/ (want = AnyErr /\ IsErr(got))
\* of branches which produce the same, the first ones are taken to be ahead
Ahead(items, v, b) == \A c \in DOMAIN items : c < b /\ items[c] = items[b] => v[c] > v[b]
RECURSIVE Walk(_, _, _, _)
Walk(items, obs, k, S) ==
  IF k > Len(obs) \/ S = {} THEN S
  ELSE Walk(items, obs, k + 1,
            UNION {{[v EXCEPT ![b] = @ + 1] : b \in {b \in DOMAIN items : v[b] < Len(items[b]) /\ Same(items[b][v[b] + 1], obs[k]) /\ Ahead(items, v, b)}} : v \in S})
Interleaving(items, obs) == [b \in DOMAIN items |-> Len(items[b])] \in Walk(items, obs, 1, {[b \in DOMAIN items |-> 0]})

RECURSIVE Concat(_, _), Total(_, _)
Concat(items, b) == IF b > Len(items) THEN <<>> ELSE items[b] \o Concat(items, b + 1)
Total(items, b) == IF b > Len(items) THEN 0 ELSE Len(items[b]) + Total(items, b + 1)
CountOf(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})

(* the rest of the command, which does not depend on the order in which it receives rows; errors pass *)
TailRun(r, items) ==
  LET all == Concat(items, 1)
      rows == SelectSeq(all, LAMBDA x : ~IsErr(x)) IN
  RunPipe(<<[op |-> "rows", rows |-> [k \in 1..Len(rows) |-> rows[k][2]]]>> \o r.tail, Globals(r))

Verdict(r) ==
  LET bs == Branches(r)
      items == [b \in DOMAIN bs |-> IF r.tail = <<>> THEN ShownItems(bs[b].items) ELSE bs[b].items]
      obs == r.obs.items IN
  IF r.obs.crash THEN "crash"
  ELSE IF r.refused THEN IF r.obs.kill /\ obs = <<>> THEN "" ELSE "not refused"
  ELSE IF \E b \in DOMAIN bs : bs[b].u THEN "U"
  ELSE IF r.tail # <<>> THEN
       LET t == TailRun(r, items)
           errs == SelectSeq(Concat(items, 1), LAMBDA x : IsErr(x))
           got == SelectSeq(obs, LAMBDA x : IsErr(x)) IN
       IF t.kill = "U" THEN "U"
       ELSE IF t.kill # "" THEN IF r.obs.kill THEN "" ELSE "tail not refused"
       ELSE IF \E x \in {errs[k] : k \in 1..Len(errs)} : x # AnyErr /\ CountOf(got, x) < CountOf(errs, x) THEN "error lost"
       ELSE IF Len(got) # Len(errs) + Len(SelectSeq(t.out, LAMBDA x : IsErr(x))) THEN "errors"
       ELSE IF ShownItems(SelectSeq(t.out, LAMBDA x : ~IsErr(x))) # SelectSeq(obs, LAMBDA x : ~IsErr(x)) THEN "rows"
       ELSE IF r.obs.kill THEN "killed" ELSE ""
  ELSE IF r.obs.kill THEN "killed"
  ELSE IF Interleaving(items, obs) THEN ""
  ELSE IF Len(obs) < Total(items, 1) THEN "lost"
  ELSE IF Len(obs) > Total(items, 1) THEN "more than the branches produced"
  ELSE "not an interleaving"

Init == n \in 1..Len(Runs)
Next == /\ n > 0
        /\ LET v == Verdict(Runs[n]) IN
           IF v = "" THEN TRUE ELSE PrintT((IF v = "U" THEN "UNSPEC " ELSE "BAD ") \o ToJson([n |-> n, clause |-> v]))
        /\ n' = 0 - n
Spec == Init /\ [][Next]_vars
=============================================================================
