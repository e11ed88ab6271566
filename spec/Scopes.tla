-------------------------------- MODULE Scopes --------------------------------
(* Scopes of variables. Running a pipeline with parameters opens a scope, which hides variables of the same
   name until the pipeline ends; assignment and deletion concern the innermost scope having the name as a
   parameter, else the variables of the session. A command which is aborted leaves all scopes at once.

   TLC explores the state machine completely up to MaxLen actions (and by simulation beyond); the behaviours
   printed are replayed on the implementation, and what is visible after every action compared.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, MaxDepth, MaxLen

VARIABLES globals,   \* name -> value, 0: undefined
          stack,     \* open scopes, outermost first: [bind: parameters -> value, before, touched]
          hist       \* what happened: the actions with what is visible after each
vars == <<globals, stack, hist>>

Bound(n) == {k \in 1..Len(stack) : n \in DOMAIN stack[k].bind}
Innermost(n) == CHOOSE k \in Bound(n) : \A j \in Bound(n) : j <= k
VisibleIn(gl, st, n) ==
  LET b == {k \in 1..Len(st) : n \in DOMAIN st[k].bind} IN
  IF b = {} THEN gl[n] ELSE st[CHOOSE k \in b : \A j \in b : j <= k].bind[n]
View(gl, st) == [n \in Names |-> VisibleIn(gl, st, n)]
Fresh == Len(hist) + 1

Note(action, names) == hist' = Append(hist, [act |-> action, names |-> names, val |-> Fresh, depth |-> Len(stack'), see |-> View(globals', stack')])

Order(S) == IF Cardinality(S) = 1 THEN <<CHOOSE x \in S : TRUE>>
            ELSE LET f == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => s[i] # s[j] IN f

\* the k-th parameter gets Fresh + k - 1 ... values of different actions may coincide, those of one scope do not
Enter(P) ==
  /\ Len(stack) < MaxDepth /\ P # {}
  /\ LET o == Order(P) IN
     /\ stack' = Append(stack, [bind |-> [p \in P |-> Fresh + (CHOOSE k \in 1..Len(o) : o[k] = p) - 1],
                                before |-> View(globals, stack), touched |-> {}])
     /\ UNCHANGED globals
     /\ Note("enter", o)

Change(n, v) ==
  IF Bound(n) = {}
  THEN /\ globals' = [globals EXCEPT ![n] = v]
       /\ stack' = [k \in 1..Len(stack) |-> [stack[k] EXCEPT !.touched = @ \cup {n}]]
  ELSE LET i == Innermost(n) IN
       /\ globals' = globals
       /\ stack' = [k \in 1..Len(stack) |-> IF k = i THEN [stack[k] EXCEPT !.bind[n] = v]
                                            ELSE IF k > i THEN [stack[k] EXCEPT !.touched = @ \cup {n}] ELSE stack[k]]
Assign(n) == Change(n, Fresh) /\ Note("assign", <<n>>)
Delete(n) == Change(n, 0) /\ Note("delete", <<n>>)
Leave == /\ stack # <<>>
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED globals
         /\ Note("leave", <<>>)
Abort == /\ stack # <<>>
         /\ stack' = <<>> /\ UNCHANGED globals
         /\ Note("abort", <<>>)

Init == globals = [n \in Names |-> 0] /\ stack = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E P \in SUBSET Names : Enter(P)
           \/ \E n \in Names : Assign(n) \/ Delete(n)
           \/ Leave \/ Abort
Spec == Init /\ [][Next]_vars

(* A pipeline which has ended leaves no trace but the changes it made to names which are not its parameters. *)
LeaveRestores ==
  [][(Len(stack') < Len(stack) /\ hist' # hist) =>
       \A n \in Names : VisibleIn(globals', stack', n) # stack[Len(stack') + 1].before[n]
                        => n \in stack[Len(stack') + 1].touched]_vars
(* Parameters are distinct from what they hide *)
TypeOK == /\ \A k \in 1..Len(stack) : DOMAIN stack[k].bind # {}
          /\ Len(stack) <= MaxDepth

Emit == IF Len(hist') = MaxLen THEN PrintT("TRACE " \o ToJson(hist')) ELSE TRUE
=============================================================================
