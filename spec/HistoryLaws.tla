------------------------------ MODULE HistoryLaws ------------------------------
(* Laws of the history, checked for everything typed in a few commands. *)
EXTENDS History
CONSTANTS MaxTyped
Vocabulary == {"say 1", "say 2\nx", " say 3", "", "!0", "!1", "!!", "!9", "! 1 2", "!x", "edit 0", "edit", "edit 9", "editx 1", "run 0", "run", "run 9",
               "ws -n A", "ws A", "ws -c", "ws -d A", "history -a | map (h: note(h))", "history 1 | map (h: note(h))",
               "history -c say | map (h: note(h))", "exit", "START"}
VARIABLES st, before, typed, count
vars == <<st, before, typed, count>>
Init == st = New /\ before = New /\ typed = "" /\ count = 0
Next == /\ count < MaxTyped /\ count' = count + 1 /\ st.known
        /\ \E t \in Vocabulary :
             /\ IF t = "START" THEN TRUE ELSE ~st.ended
             /\ typed' = t /\ before' = st
             /\ st' = IF t = "START" THEN Begun(st) ELSE Type(st, t)
Spec == Init /\ [][Next]_vars

Grown(a, b) == Len(b) >= Len(a) /\ SubSeq(b, 1, Len(a)) = a
Noted == From(st.did, Len(before.did) + 1)
Here == before.hist[before.cur]
There == IF before.cur \in DOMAIN st.hist THEN st.hist[before.cur] ELSE <<>>
\* numbers, once given, stay: a history only grows, at its end, by what was entered, and only that of the current workspace
OnlyGrows == \A w \in DOMAIN before.hist \cap DOMAIN st.hist :
               /\ Grown(before.hist[w], st.hist[w])
               /\ Len(st.hist[w]) <= Len(before.hist[w]) + (IF w = before.cur /\ typed # "START" THEN 1 ELSE 0)
\* what was typed is recorded as it was typed, if it recalls nothing
Verbatim == (count > 0 /\ typed \notin {"START", ""} /\ Replacement(Here, typed) = None) => Last(There) = typed
\* recalling a command is like typing it
RecallIsTyping == (count > 0 /\ typed \in {"!0", "!1", "!!"} /\ Replacement(Here, typed) # None)
                    => LET again == Type(before, Replacement(Here, typed)) IN
                       Replacement(Here, Replacement(Here, typed)) = None => again = st
\* run N does what !N does (unless the command asks for the history), and is recorded itself
RunIsRecall == (count > 0 /\ typed = "run 0" /\ Here # <<>> /\ ~Starts(Here[1], "history") /\ st.known /\ ~Starts(Here[1], "edit"))
                 => LET q == Type(before, "!0") IN
                    (q.known /\ ~Starts(Here[1], "run") /\ ~Starts(Here[1], "!")) => q.did = st.did /\ q.cur = st.cur
\* a number that is not in the history runs nothing
NoSuchNumber == typed \in {"!9", "run 9", "edit 9", "!x", "! 1 2"} => Noted = <<>> /\ st.cur = before.cur
\* history -a shows all there is, history N the end of it, history -c a part of it, in order
Shown(h, word, n) == Selected(h, word, n)
Complete == \A w \in DOMAIN st.hist : LET h == st.hist[w] IN
              /\ Len(Shown(h, "", -1)) = Len(h)
              /\ \A i \in 1..Len(h) : Shown(h, "", -1)[i] = "h " \o ToString(i - 1) \o " " \o h[i]
              /\ \A n \in 0..Len(h) : Shown(h, "", n) = SubSeq(Shown(h, "", -1), Len(h) - n + 1, Len(h))
              /\ Shown(h, "say", -1) = SelectSeq(Shown(h, "", -1), LAMBDA r : Contains(r, "say"))
\* another run of the shell finds what was recorded
Persistent == typed = "START" => st.hist = before.hist
=============================================================================
