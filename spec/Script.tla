-------------------------------- MODULE Script --------------------------------
(* What a script, a here-document, or typed input does: the commands its lines spell, one after the other,
   with the workspaces they move between, and the startup scripts of these.

   The text is given as lines (strings). A run starts in the default workspace, and changes the files which
   later runs find: named workspaces, their variables, and startup scripts.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

-------------------------------------------------------------------------------
(* From lines to commands *)
Ch(s, i) == SubSeq(s, i, i)
Continued(s) == Len(s) > 0 /\ Ch(s, Len(s)) = "\\"
Blank(s) == \A i \in 1..Len(s) : Ch(s, i) = " "
Shorter(s) == SubSeq(s, 1, Len(s) - 1)

RECURSIVE Joined(_, _)
\* lines that end in a backslash go on in the next line which is not blank; blank lines are nothing
Joined(lines, part) ==
  IF lines = <<>> THEN (IF part = "" THEN <<>> ELSE <<part>>)
  ELSE LET l == Head(lines) IN
       IF Blank(l) THEN Joined(Tail(lines), part)
       ELSE IF Continued(l) THEN Joined(Tail(lines), part \o Shorter(l))
       ELSE <<part \o l>> \o Joined(Tail(lines), "")

\* typed lines are commands as they are
Commands(mode, lines) == IF mode = "typed" THEN lines ELSE Joined(lines, "")

RECURSIVE WordsFrom(_, _, _)
WordsFrom(s, i, w) ==
  IF i > Len(s) THEN (IF w = "" THEN <<>> ELSE <<w>>)
  ELSE IF Ch(s, i) = "\\" /\ i < Len(s) THEN WordsFrom(s, i + 2, w \o Ch(s, i + 1))
  ELSE IF Ch(s, i) = " " THEN (IF w = "" THEN <<>> ELSE <<w>>) \o WordsFrom(s, i + 1, "")
  ELSE WordsFrom(s, i + 1, w \o Ch(s, i))
RECURSIVE Uncommented(_)
Uncommented(ws) == IF ws = <<>> \/ Ch(Head(ws), 1) = "#" THEN <<>> ELSE <<Head(ws)>> \o Uncommented(Tail(ws))
Words(s) == Uncommented(WordsFrom(s, 1, ""))

-------------------------------------------------------------------------------
(* State *)
NoVars == [v \in {} |-> ""]
Set(f, k, v) == (k :> v) @@ f
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

\* spaces: name -> variables, of the named workspaces. startup: name -> what its startup script says.
Fresh == [spaces |-> [n \in {} |-> NoVars], startup |-> ("" :> <<>>),
          cur |-> "", vars |-> NoVars, default |-> NoVars, changed |-> FALSE, ended |-> FALSE]

Protected(st) == {s[2] : s \in {x \in {st.startup[st.cur][i] : i \in 1..Len(st.startup[st.cur])} : x[1] = "set"}}

Res(st, out, err) == [st |-> st, out |-> out, err |-> err]
Then(r, q) == Res(q.st, r.out \o q.out, r.err + q.err)

\* Opening a workspace: the variables it had, what the startup script sets, then the commands it asks for.
RECURSIVE SetAll(_, _), RunAll(_, _)
SetAll(vars, script) ==
  IF script = <<>> THEN vars
  ELSE LET s == Head(script) IN SetAll(IF s[1] = "set" THEN Set(vars, s[2], s[3]) ELSE vars, Tail(script))
RunAll(r, script) ==
  IF script = <<>> THEN r
  ELSE LET s == Head(script)
           q == CASE s[1] = "set" -> r
                  [] s[1] = "run" -> Res([r.st EXCEPT !.vars = Set(@, s[2], s[3])], r.out, r.err)
                  [] s[1] = "print" -> Res(r.st, Append(r.out, s[3]), r.err)
       IN RunAll(q, Tail(script))
\* prot: what the startup script protects while the workspace is open, though it may change in the meantime
Opened(st, name, vars) ==
  LET script == st.startup[name]
      prot == {script[i][2] : i \in {j \in 1..Len(script) : script[j][1] = "set"}}
      s1 == [st EXCEPT !.cur = name, !.vars = SetAll(vars, script), !.changed = FALSE] @@ [prot |-> {}]
  IN RunAll(Res([s1 EXCEPT !.prot = prot], <<>>, 0), script)

\* What is kept of the current workspace when it is left
Kept(st) == Without(st.vars, st.prot)
Left(st) == IF st.cur = "" THEN [st EXCEPT !.default = Kept(st)] ELSE [st EXCEPT !.spaces = Set(@, st.cur, Kept(st))]
VarsOf(st, name) == IF name = "" THEN st.default ELSE st.spaces[name]

Switched(st, name) == LET l == Left(st) IN Then(Res(st, <<"Workspace(" \o name \o ")">>, 0), Opened(l, name, VarsOf(l, name)))
Reopened(st) == LET l == Left(st) IN Opened(l, st.cur, VarsOf(l, st.cur))

Begun(st) == Opened([st EXCEPT !.default = NoVars, !.ended = FALSE], "", NoVars)
Finished(st) == Left(st)

-------------------------------------------------------------------------------
(* Commands *)
InParens(w) == Len(w) > 2 /\ Ch(w, 1) = "(" /\ Ch(w, Len(w)) = ")" /\ \A i \in 2..(Len(w) - 1) : Ch(w, i) \notin {"(", ")"}
Inside(w) == SubSeq(w, 2, Len(w) - 1)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Number(w) == Len(w) > 0 /\ \A i \in 1..Len(w) : Ch(w, i) \in Digits
Plain(w) == Len(w) > 0 /\ \A i \in 1..Len(w) : Ch(w, i) \in Digits \cup {" "}
\* any number of pipes through reverse
RECURSIVE Through(_)
Through(w) == w = <<>> \/ (Len(w) >= 2 /\ w[1] = "|" /\ w[2] = "reverse" /\ Through(SubSeq(w, 3, Len(w))))
Unusable(name) == \E i \in 1..Len(name) : Ch(name, i) = "/"

Refused(st) == Res(st, <<>>, 1)
Nothing(st) == Res(st, <<>>, 0)
Exists(st, name) == name \in DOMAIN st.spaces

Assigned(st, var, value) ==
  IF var \in st.prot THEN Refused(st) ELSE Nothing([st EXCEPT !.vars = Set(@, var, value)])

EditedStartup(st, w) ==
  LET kind == CASE w[2] = "-s" -> "set" [] w[2] = "-r" -> "run" [] w[2] = "-p" -> "print"
      name == IF w[3] = "__DEFAULT__" THEN "" ELSE w[3] IN
  IF name # "" /\ ~Exists(st, name) THEN Nothing(st)
  ELSE Nothing([st EXCEPT !.startup = Set(@, name, Append(@[name], <<kind, w[4], w[5]>>)), !.changed = @ \/ name = st.cur])

Ws(st, w) ==
  CASE Len(w) = 1 -> Res(st, <<"Workspace(" \o st.cur \o ")">>, 0)
    [] Len(w) = 2 /\ w[2] \in {"-c", "--close"} -> IF st.cur = "" THEN Nothing(st) ELSE Switched(st, "")
    [] Len(w) = 3 /\ w[2] \in {"-n", "--new"} ->
         IF Exists(st, w[3]) \/ Unusable(w[3]) THEN Refused(st)
          \* a new workspace has a copy of the startup script of the default workspace
         ELSE Switched([st EXCEPT !.spaces = Set(@, w[3], NoVars), !.startup = Set(@, w[3], @[""])], w[3])
    [] Len(w) = 3 /\ w[2] \in {"-d", "--delete"} ->
         IF ~Exists(st, w[3]) \/ w[3] = st.cur THEN Refused(st)
         ELSE Nothing([st EXCEPT !.spaces = Without(@, {w[3]}), !.startup = Without(@, {w[3]})])
    [] Len(w) = 2 -> IF w[2] = st.cur THEN Nothing(st) ELSE IF ~Exists(st, w[2]) THEN Refused(st) ELSE Switched(st, w[2])

Known(w) ==
  \/ w = <<>> \/ w = <<"exit">>
  \/ w[1] = "ws" /\ (Len(w) <= 2 \/ (Len(w) = 3 /\ w[2] \in {"-n", "--new", "-d", "--delete"}))
  \/ Len(w) >= 3 /\ w[1] = "gen" /\ w[2] = "1" /\ Number(w[3]) /\
       (Through(SubSeq(w, 4, Len(w))) \/ (Len(w) >= 5 /\ w[Len(w) - 1] = ">$" /\ Through(SubSeq(w, 4, Len(w) - 2))))
  \/ Len(w) = 3 /\ w[2] = "=" /\ (Plain(w[3]) \/ InParens(w[3]))
  \/ Len(w) = 1 /\ InParens(w[1])
  \/ w[1] = "sustartup" /\ Len(w) = 5
  \/ w[1] \in {"nosuch", "head", "("}

\* Executed in workspace st.cur
Effect(st, w) ==
  CASE w = <<>> -> Nothing(st)
    [] w[1] = "exit" -> Nothing([st EXCEPT !.ended = TRUE])
    [] w[1] = "ws" -> Ws(st, w)
    [] w[1] = "sustartup" -> EditedStartup(st, w)
    [] w[1] = "gen" -> IF w[Len(w) - 1] = ">$"
                       THEN Assigned(st, w[Len(w)], "Stream")
                       ELSE Res(st, <<w[3]>>, 0)
    [] w[1] \in {"nosuch", "head", "("} -> Refused(st)
    [] Len(w) = 3 -> Assigned(st, w[1], IF InParens(w[3]) THEN Inside(w[3]) ELSE w[3])
    [] Len(w) = 1 -> LET v == Inside(w[1]) IN
                     Res(st, <<IF Number(v) THEN v ELSE Get(st.vars, v, "Error")>>, 0)

\* typed commands find the startup script as it is now
Step(mode, st, w) ==
  IF st.ended THEN Nothing(st)
  ELSE IF mode = "typed" /\ st.changed THEN LET r == Reopened(st) IN Then(r, Effect(r.st, w))
  ELSE Effect(st, w)

RECURSIVE Steps(_, _, _)
Steps(mode, r, cmds) ==
  IF cmds = <<>> THEN r ELSE Steps(mode, Then(r, Step(mode, r.st, Words(Head(cmds)))), Tail(cmds))

\* A run: [st, out, err]
Run(st, mode, lines) ==
  LET r == Steps(mode, Begun(st), Commands(mode, lines)) IN
  Res(Finished(r.st), r.out, r.err)
RunKnown(mode, lines) == \A i \in 1..Len(Commands(mode, lines)) : Known(Words(Commands(mode, lines)[i]))
=============================================================================
