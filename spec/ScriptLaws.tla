------------------------------ MODULE ScriptLaws ------------------------------
(* Laws of reading scripts and of running them, checked exhaustively within bounds. *)
EXTENDS Script
CONSTANTS MaxLines
Texts == {"", " ", "a", "a\\", " \\", "\\", "a b", "# a", "b\\"}
Vocabulary == {"x = (1)", "x = (2)", "(x)", "gen 1 5", "nosuch", "ws -n A", "ws A", "ws -c", "ws -d A", "exit",
               "sustartup -s A x 3", "sustartup -s __DEFAULT__ x 4", "sustartup -p A - 6", "sustartup -r __DEFAULT__ y 7", "(y)", ""}
VARIABLES lines, kind
vars == <<lines, kind>>
Init == lines = <<>> /\ kind \in {"text", "run"}
Next == /\ Len(lines) < MaxLines /\ kind' = kind
        /\ \E l \in IF kind = "text" THEN Texts ELSE Vocabulary : lines' = Append(lines, l)
Spec == Init /\ [][Next]_vars

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Flat(Tail(ss))
Bare(l) == IF Blank(l) THEN "" ELSE IF Continued(l) THEN Shorter(l) ELSE l
\* nothing of the text is lost or repeated
NothingLost == kind = "text" => Flat(Joined(lines, "")) = Flat([i \in 1..Len(lines) |-> Bare(lines[i])])
\* a line which is not continued ends a command: what follows is a script of its own
Separate == kind = "text" => \A i \in 1..Len(lines) :
              (~Blank(lines[i]) /\ ~Continued(lines[i]))
                => Joined(lines, "") = Joined(SubSeq(lines, 1, i), "") \o Joined(SubSeq(lines, i + 1, Len(lines)), "")
NoBlankCommands == kind = "text" => \A i \in 1..Len(Joined(lines, "")) : Joined(lines, "")[i] # ""

Ran(mode) == Run(Fresh, mode, lines)
\* The way commands are given matters only where the startup script of the open workspace is changed
Quiet == \A i \in 1..Len(lines) : ~(Len(lines[i]) > 9 /\ SubSeq(lines[i], 1, 9) = "sustartup")
SameInAllModes == (kind = "run" /\ Quiet) => Ran("typed") = Ran("script")
\* A variable the startup script sets has that value whenever the workspace is opened, and is not saved
StartupWins == kind = "run" => \A m \in {"typed", "script"} :
                 LET s == Ran(m).st IN
                 \A n \in DOMAIN s.spaces : LET o == Opened(s, n, s.spaces[n]).st IN
                   \A i \in 1..Len(s.startup[n]) : s.startup[n][i][1] = "set"
                      => /\ s.startup[n][i][2] \in DOMAIN o.vars
                         /\ Assigned(o, s.startup[n][i][2], "0").err = 1
\* Only exit keeps later commands from being run: what is printed first does not depend on what follows
OneByOne == kind = "run" /\ lines # <<>> =>
              \A m \in {"typed", "script"} :
                LET a == Run(Fresh, m, SubSeq(lines, 1, Len(lines) - 1)) b == Ran(m) IN
                /\ Len(b.out) >= Len(a.out) /\ SubSeq(b.out, 1, Len(a.out)) = a.out /\ b.err >= a.err
\* Named workspaces keep what they had for the next run; variables of the default workspace do not outlive it
Restart == kind = "run" => LET s == Ran("script").st IN
             /\ Run(s, "script", <<"(x)">>).out[Len(Run(s, "script", <<"(x)">>).out)] =
                  (IF \E i \in 1..Len(s.startup[""]) : s.startup[""][i][2] = "x" THEN "4" ELSE "Error")
             /\ \A n \in DOMAIN s.spaces : Run(s, "script", <<"ws -c">>).st.spaces[n] = s.spaces[n]
=============================================================================
