---- MODULE Damage ----
(* What becomes of workspaces whose files are damaged.

   Files are damaged while nobody uses the workspace. Whoever starts marcel, or changes workspace, looks at all of
   them: exactly the damaged ones are moved aside, with what is left of them, and reported; the others stay as they are.
   The default workspace is replaced by a new one. There is always a session, in the default workspace if the one
   asked for is damaged. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names             \* workspaces other than the default one
Def == "__DEFAULT__"
All == Names \union {Def}

\* c, d: no config (data) directory;  C, D: a file in its place;  s: no startup script;  e, p: no environment
\* (properties);  h: no history;  r: no reservoirs;  R: a file in their place;  x, y: more in the config (data) directory
Recognised == {"c", "d", "C", "D", "s", "e", "p", "h", "r", "R", "x", "y"}
\* m: no marker;  M: marker of a process which died. These are put right.
Harmless == {"m", "M"}
\* The default workspace has no environment or properties when nobody uses it.
Applies(n, k) == ~(n = Def /\ k \in {"e", "p", "m", "M"})

VARIABLES ex,     \* the workspaces there are
          harm,   \* harm[n]: kinds of damage done to n since it was last put right
          aside,  \* aside[n]: how often n was moved aside
          up, cur,\* a session is running, and its workspace
          res     \* outcome of the last command
vars == <<ex, harm, aside, up, cur, res>>

None == [refused |-> FALSE, damaged |-> {}, ident |-> "", list |-> {}]
Init == /\ ex = {Def} /\ harm = [n \in All |-> {}] /\ aside = [n \in All |-> 0]
        /\ up = FALSE /\ cur = Def /\ res = None

Broken == {n \in ex : harm[n] \intersect Recognised # {}}

\* Everything is looked at, by a session which has workspace c open (or is opening it).
LookedAt(c) ==
  /\ ex' = (ex \ Broken) \union {Def}
  /\ harm' = [n \in All |-> {}]
  /\ aside' = [n \in All |-> aside[n] + (IF n \in Broken THEN 1 ELSE 0)]
  /\ cur' = (IF c \in Broken THEN Def ELSE c)
  /\ res' = [None EXCEPT !.damaged = Broken, !.ident = IF c \in Broken THEN Def ELSE c, !.list = (ex \ Broken) \ {Def}]

Harm(n, k) == /\ n \in ex /\ Applies(n, k) /\ ~(up /\ n \in {cur, Def})
              \* something is left of it
              /\ (k = "c" => harm[n] \intersect {"d"} = {}) /\ (k = "d" => harm[n] \intersect {"c"} = {})
              /\ harm' = [harm EXCEPT ![n] = @ \union {k}]
              /\ res' = None
              /\ UNCHANGED <<ex, aside, up, cur>>
Start == ~up /\ up' = TRUE /\ LookedAt(Def)
Exit == up /\ up' = FALSE /\ cur' = Def /\ res' = None /\ UNCHANGED <<ex, harm, aside>>
\* A script runs in the default workspace, and tells which workspaces there are.
Script == LookedAt(cur) /\ UNCHANGED up
Refuse == res' = [None EXCEPT !.refused = TRUE, !.ident = cur] /\ UNCHANGED <<ex, harm, aside, up, cur>>
\* Without its marker, a workspace is not there, until all workspaces are looked at.
Findable(n) == n \in ex /\ harm[n] \intersect {"c", "C", "m"} = {}
New(n) == /\ up /\ UNCHANGED up
          /\ IF Findable(n) THEN Refuse
             ELSE /\ n \notin ex
                  /\ LET b == Broken IN
                     /\ ex' = (ex \ b) \union {Def, n}
                     /\ harm' = [m \in All |-> {}]
                     /\ aside' = [m \in All |-> aside[m] + (IF m \in b THEN 1 ELSE 0)]
                     /\ cur' = n
                     /\ res' = [None EXCEPT !.damaged = b, !.ident = n, !.list = ((ex \ b) \ {Def}) \union {n}]
Open(n) == /\ up /\ UNCHANGED up
           /\ IF n = cur /\ Findable(n) THEN res' = [None EXCEPT !.ident = cur] /\ UNCHANGED <<ex, harm, aside, cur>>
              ELSE IF ~Findable(n) THEN Refuse ELSE LookedAt(n)
Close == /\ up /\ UNCHANGED up
         /\ IF cur = Def THEN res' = [None EXCEPT !.ident = cur] /\ UNCHANGED <<ex, harm, aside, cur>> ELSE LookedAt(Def)

Do(o) == CASE o.op = "harm" -> Harm(o.n, o.k)
           [] o.op = "start" -> Start
           [] o.op = "exit" -> Exit
           [] o.op = "script" -> Script
           [] o.op = "new" -> New(o.n)
           [] o.op = "open" -> Open(o.n)
           [] o.op = "close" -> Close

Kinds == Recognised \union Harmless
Ops == {[op |-> x] : x \in {"start", "exit", "script", "close"}} \union
       {[op |-> x, n |-> n] : x \in {"new", "open"}, n \in Names} \union
       {[op |-> "harm", n |-> n, k |-> k] : n \in All, k \in Kinds}

\* --- W04
TypeOK == Def \in ex /\ cur \in ex
\* what is not damaged stays
Untouched == [][\A n \in ex : n \notin Broken => n \in ex' /\ aside'[n] = aside[n]]_vars
\* what is moved aside was damaged, and is reported
Reported == [][\A n \in All : aside'[n] # aside[n] <=> n \in res'.damaged]_vars
NoneLeft == up /\ res.list # {} => Broken = {} \/ res = None
\* a session goes on
Alive == [][up /\ ~up' => cur' = Def]_vars
=============================================================================
