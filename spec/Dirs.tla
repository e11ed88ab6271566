-------------------------------- MODULE Dirs ---------------------------------
(* The current directory and the directory stack: cd, pushd, popd, dirs, pwd, in a file system in which
   directories are also removed, created and closed by others.

   A path is the sequence of the names below a root; <<"~">> stands for the user's home directory. The
   directory stack is a sequence with its top last. The shell is in the top directory of the stack: that is
   what pwd prints, what PWD has, where relative paths start, and where external programs run.
   Entries below the top which can no longer be entered are dropped from the stack by the next command.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS MaxLen,       \* actions in a behaviour
          MaxStack,     \* pushes are considered while the stack is shorter
          Others,       \* BOOLEAN: others change the file system
          Small         \* BOOLEAN: fewer arguments

VARIABLES have,         \* paths which exist
          closed,       \* BOOLEAN: nobody may enter directory p
          pwd, stack,
          stale,        \* the directory we are in was removed: PWD has its name, but the process is nowhere
          hist
vars == <<have, closed, pwd, stack, stale, hist>>
view == <<have, closed, pwd, stack, stale, Len(hist)>>

Home == <<"~">>
P == <<"p">>
DirsAtFirst == {<<>>, <<"a">>, <<"a", "x">>, <<"b">>, <<"b", "y">>, P, <<"p", "z">>, Home}
Links == (<<"l">> :> <<"a", "x">>) @@ (<<"b", "m">> :> <<"a">>) @@ (<<"k">> :> <<"nosuch">>)
Files == {<<"f">>}

Fail == <<"fail">>
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Beneath(d, p) == Len(p) >= Len(d) /\ SubSeq(p, 1, Len(d)) = d
Isdir(p) == p \in have /\ p \notin DOMAIN Links /\ p \notin Files
\* the permission to look things up in p
Open(p) == ~closed \/ p # P
\* p can be entered: it exists, and every directory on the way to it, and it too, is open
Enterable(p) == Isdir(p) /\ \A n \in 0..Len(p) : Open(SubSeq(p, 1, n))
Exists(p) == p \in have /\ \A n \in 0..Len(p) - 1 : Open(SubSeq(p, 1, n))

(* . and .. are removed from a path as it is written, before links are followed. *)
RECURSIVE Norm(_, _), Walk(_, _)
Norm(cs, done) == IF cs = <<>> THEN done
                  ELSE IF cs[1] = "." THEN Norm(Tail(cs), done)
                  ELSE IF cs[1] = ".." /\ done # <<>> /\ Last(done) # ".." THEN Norm(Tail(cs), Front(done))
                  ELSE Norm(Tail(cs), Append(done, cs[1]))
(* The path reached from cur by cs; links are followed. *)
Walk(cur, cs) ==
  IF cs = <<>> THEN <<"at", cur>>
  ELSE IF ~Enterable(cur) THEN Fail
  ELSE IF cs[1] = ".." THEN Walk(Front(cur), Tail(cs))
  ELSE LET q == Append(cur, cs[1]) IN
       IF q \notin have THEN Fail
       ELSE IF q \in DOMAIN Links THEN (LET t == Walk(<<>>, Links[q]) IN IF t = Fail THEN Fail ELSE Walk(t[2], Tail(cs)))
       ELSE IF q \in Files THEN (IF Tail(cs) = <<>> THEN <<"at", q>> ELSE Fail)
       ELSE Walk(q, Tail(cs))

(* Arguments: <<"rel", names>>, <<"abs", names>>, <<"none">>, <<"one">> the pattern "?" *)
Matches == {p \in have : Len(p) = Len(pwd) + 1 /\ Beneath(pwd, p) /\ p # Home}
Resolve(arg) ==
  (CASE arg[1] = "rel" -> Walk(pwd, Norm(arg[2], <<>>))
     [] arg[1] = "abs" -> Walk(<<>>, Norm(arg[2], <<>>))
     [] arg[1] = "home" -> <<"at", Home>>
     [] arg[1] = "one" -> IF Enterable(pwd) /\ Cardinality(Matches) = 1 THEN Walk(pwd, <<Last(CHOOSE p \in Matches : TRUE)>>) ELSE Fail)
\* the directory meant by arg, if it can be entered
Target(arg) == LET t == Resolve(arg) IN IF t = Fail \/ ~Enterable(t[2]) THEN Fail ELSE t
\* nothing is said about what is outside of the root
Ups(cs) == Cardinality({i \in DOMAIN cs : cs[i] = ".."})
Inside(arg) == (CASE arg[1] = "rel" -> LET n == Ups(Norm(arg[2], <<>>)) IN n <= (IF pwd = Home THEN 0 ELSE Len(pwd))
                  [] arg[1] = "one" -> pwd # Home
                  [] OTHER -> TRUE)

Args == IF Small THEN {<<"rel", <<"a">>>>, <<"rel", <<"..">>>>, <<"rel", <<"x">>>>, <<"abs", <<"b">>>>, <<"abs", P>>, <<"rel", <<"f">>>>}
        ELSE {<<"rel", c>> : c \in {<<"a">>, <<"b">>, <<"x">>, <<"y">>, <<"..">>, <<".">>, <<"..", "..">>, <<"..", "b">>, <<"..", "a", "x">>, <<"a", "x">>,
                                    <<"a", "..", "b">>, <<"l">>, <<"l", "..">>, <<"b", "m", "x">>, <<"m">>, <<"m", "x">>, <<"k">>, <<"f">>, <<"f", "..", "a">>,
                                    <<"nosuch">>, <<"p">>, <<"p", "z">>, <<"z">>, <<"nosuch", "..", "a">>}}
             \cup {<<"abs", c>> : c \in {<<>>, <<"a">>, <<"a", "x">>, <<"b">>, <<"b", "y">>, <<"b", "m">>, <<"l">>, <<"p">>, <<"p", "z">>, <<"f">>, <<"k">>, <<"a", "nosuch">>}}
             \cup {<<"one">>, <<"home">>}

----------------------------------------------------------------------------
(* What is left of a stack, after others have changed the file system *)
RECURSIVE Keep(_)
Keep(s) == IF s = <<>> THEN <<>> ELSE (IF Enterable(s[1]) THEN <<s[1]>> ELSE <<>>) \o Keep(Tail(s))
Clean(s) == Append(Keep(Front(s)), Last(s))

\* after: the stack which the command makes
Log(cmd, ok, after) == hist' = Append(hist, [c |-> cmd, ok |-> ok, dropped |-> cmd[1] # "clear" /\ (Clean(stack) # stack \/ Clean(after) # after),
                                      pwd |-> pwd', stack |-> stack', stale |-> stale', in |-> ~stale' /\ Enterable(pwd')])

\* the directory left may be one that cannot be entered again
Enter(d, s) == pwd' = d /\ stack' = Clean(s) /\ stale' = FALSE
Stay == pwd' = pwd /\ stack' = Clean(stack) /\ stale' = stale

Cd(arg) == LET t == Target(arg) IN
           /\ Inside(arg)
           /\ LET s == IF t = Fail THEN Clean(stack) ELSE Append(Front(Clean(stack)), t[2]) IN
              (IF t = Fail THEN Stay ELSE Enter(t[2], s)) /\ Log(<<"cd", arg>>, t # Fail, s)
           /\ UNCHANGED <<have, closed>>
Push(arg) == LET t == Target(arg) IN
             /\ Inside(arg) /\ arg[1] # "home" /\ Len(stack) < MaxStack
             /\ LET s == IF t = Fail THEN Clean(stack) ELSE Append(Clean(stack), t[2]) IN
                (IF t = Fail THEN Stay ELSE Enter(t[2], s)) /\ Log(<<"pushd", arg>>, t # Fail, s)
             /\ UNCHANGED <<have, closed>>
Swap == LET s == Clean(stack) n == Len(s) IN
        /\ LET t == IF n <= 1 THEN s ELSE SubSeq(s, 1, n - 2) \o <<s[n], s[n - 1]>> IN
           (IF n <= 1 THEN Stay ELSE Enter(s[n - 1], t)) /\ Log(<<"swap">>, TRUE, t)
        /\ UNCHANGED <<have, closed>>
Pop == LET s == Clean(stack) n == Len(s) IN
       /\ (IF n <= 1 THEN Stay ELSE Enter(s[n - 1], Front(s)))
       /\ Log(<<"popd">>, TRUE, stack')
       /\ UNCHANGED <<have, closed>>
Clear == /\ pwd' = pwd /\ stack' = <<pwd>> /\ stale' = stale
         /\ Log(<<"clear">>, TRUE, stack')
         /\ UNCHANGED <<have, closed>>

(* Others *)
Removable == {<<"a">>, <<"a", "x">>, <<"b">>, <<"b", "y">>, <<"p", "z">>}
Then(cmd) == pwd' = pwd /\ stack' = stack /\ hist' = Append(hist, [c |-> cmd])
Remove(d) == /\ d \in have /\ (closed => ~Beneath(P, d))
             /\ have' = {p \in have : ~Beneath(d, p)}
             /\ stale' = (stale \/ Beneath(d, pwd))
             /\ UNCHANGED closed /\ Then(<<"rm", d>>)
Create(d) == /\ d \notin have /\ Isdir(Front(d)) /\ (closed => ~Beneath(P, d))
             /\ have' = have \cup {d}
             /\ UNCHANGED <<closed, stale>> /\ Then(<<"mk", d>>)
Close == /\ closed' = ~closed /\ UNCHANGED <<have, stale>> /\ Then(<<"chmod", closed'>>)

Init == /\ have = DirsAtFirst \cup DOMAIN Links \cup Files
        /\ closed = FALSE /\ pwd = <<>> /\ stack = <<<<>>>> /\ stale = FALSE /\ hist = <<>>
\* behaviours are drawn at random when there are many arguments
Some(S, n) == IF Small THEN S ELSE RandomSubset(n, S)
Next == /\ Len(hist) < MaxLen
        /\ \/ \E arg \in Some(Args, 3) : Cd(arg)
           \/ \E arg \in Some(Args, 4) : Push(arg)
           \/ Swap \/ Pop \/ Clear
           \/ Others /\ hist # <<>> /\ Len(Last(hist).c) # 0 /\ Last(hist).c[1] \notin {"rm", "mk"}
              /\ (Close \/ \E d \in Some(Removable, 2) : Remove(d) \/ Create(d))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the shell is in the top of its stack
TopIsHere == stack # <<>> /\ Last(stack) = pwd
\* which is a real directory, unless somebody removed it
Real == (pwd \in DirsAtFirst) /\ (~stale => Isdir(pwd))
\* after a command, what is on the stack can be entered, except where we are
Entries == (hist # <<>> /\ Last(hist).c[1] \notin {"rm", "mk", "chmod"}) => \A i \in 1..Len(stack) - 1 : Enterable(stack[i])

Did(what) == Len(hist') > Len(hist) /\ Last(hist').c[1] = what
Ok == Last(hist').ok
FailureChangesNothing == [][(Did("cd") \/ Did("pushd")) /\ ~Ok => pwd' = pwd /\ stack' = Clean(stack) /\ stale' = stale]_vars
PushThenBelow == [][Did("pushd") /\ Ok => Front(stack') = Keep(stack)]_vars
CdKeepsBelow == [][Did("cd") => Front(stack') = Front(Clean(stack))]_vars
PopTakesTop == [][Did("popd") /\ Len(Clean(stack)) > 1 => stack' = Front(Clean(stack))]_vars
SwapKeepsEntries == [][Did("swap") => {stack'[i] : i \in DOMAIN stack'} = {pwd'} \cup {d \in {stack[i] : i \in DOMAIN stack} : Enterable(d)}]_vars

Emit == Len(hist') = MaxLen => PrintT("TRACE " \o ToJson(hist'))
==============================================================================
