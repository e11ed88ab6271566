----------------------------- MODULE CompleteLaws -----------------------------
(* Every name can be completed from every way of typing a part of it, and no candidate denotes two files. *)
EXTENDS Complete
CONSTANTS MaxName, MaxOther
Codes_ == {97, 32, 39, 34, 92, 42, 126}
NamesUpTo(n) == UNION {[1..k -> Codes_] : k \in 1..n}
VARIABLES name, other, dir, q, cut, deep
vars == <<name, other, dir, q, cut, deep>>
Init == /\ name \in NamesUpTo(MaxName) /\ other \in NamesUpTo(MaxOther) \ {name} /\ dir \in BOOLEAN /\ q \in {0, SQ, DQ}
        /\ cut \in 0..MaxName /\ cut <= Len(name) /\ deep \in BOOLEAN
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* One way to spell characters where the quote q is open
RECURSIVE Spell(_, _)
Spell(s, quote) ==
  IF s = <<>> THEN <<>>
  ELSE LET c == Head(s) IN
       (IF quote = 0 THEN (IF c = 97 THEN <<c>> ELSE <<ESC, c>>)
        ELSE IF quote = SQ THEN (IF c = SQ THEN <<SQ, ESC, SQ, SQ>> ELSE <<c>>)
        ELSE (IF c \in {DQ, ESC} THEN <<ESC, c>> ELSE <<c>>)) \o Spell(Tail(s), quote)
Quote == IF q = 0 THEN <<>> ELSE <<q>>
Where == IF deep THEN <<<<97, 32>>>> ELSE <<>>
Typed == (IF deep THEN Quote \o Spell(<<97, 32>>, q) \o <<SLASH>> ELSE Quote) \o Spell(SubSeq(name, 1, cut), q)
Fs == [cwd |-> <<<<99>>>>, home |-> <<<<104>>>>, programs |-> {}, users |-> {},
       entries |-> <<[path |-> <<<<99>>>> \o Where \o <<name>>, dir |-> dir], [path |-> <<<<99>>>> \o Where \o <<other>>, dir |-> dir],
                     [path |-> <<<<104>>, name>>, dir |-> dir]>>]
Cand(n) == [text |-> Spell(Drop(n, cut), q) \o (IF dir THEN <<SLASH>> ELSE Quote \o <<SPACE>>), back |-> 0]
Completable == Denotes(Fs, Ends, Typed, Cand(name), 1)
Unambiguous == ~Denotes(Fs, Ends, Typed, Cand(name), 2) /\ ~Denotes(Fs, Ends, Typed, Cand(name), 3)
Both == Pre(SubSeq(name, 1, cut), other)
Judged == LET cs == IF Both THEN <<Cand(name), Cand(other)>> ELSE <<Cand(name)>> IN
          /\ FileVerdict(Fs, Ends, Typed, cs) = ""
          /\ FileVerdict(Fs, Ends, Typed, <<>>) # ""
          /\ Both => FileVerdict(Fs, Ends, Typed, <<Cand(name)>>) # ""
          /\ FileVerdict(Fs, Ends, Typed, Append(cs, Cand(name))) # ""
          /\ FileVerdict(Fs, Ends, Typed, <<[Cand(name) EXCEPT !.text = Append(@, SPACE)]>>) # ""
=============================================================================
