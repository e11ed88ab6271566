-------------------------------- MODULE Fork --------------------------------
(* fork: branches which run concurrently, each with a channel to the process which merges what they send.

   A branch performs the steps of its program: "r" produces a row, "e" an error (a row the pipeline failed on), "K" an
   error which ends the branch (its command was killed), "D" ends the process of the branch at once. The merging
   process takes what is in the channels, in any order, until every branch has ended and every channel is empty. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* number of branches
          MaxSteps, \* of one branch
          Cap,      \* what a channel holds
          Faults    \* may branches be killed?
VARIABLES prog, pos, chan, st, open, out, hist
vars == <<prog, pos, chan, st, open, out, hist>>
Branches == 1..N

Steps(n) == [1..n -> {"r", "e"}]
Normal == UNION {Steps(n) : n \in 0..MaxSteps}
Progs == Normal \cup {Append(p, x) : p \in UNION {Steps(n) : n \in 0..MaxSteps - 1}, x \in IF Faults THEN {"K", "D"} ELSE {"K"}}

Sent(b) == Cardinality({k \in 1..pos[b] : prog[b][k] # "D"})       \* items which b has put into its channel
Items(b) == LET p == prog[b]
                n == Cardinality({k \in 1..Len(p) : p[k] # "D"}) IN [k \in 1..n |-> <<b, k, p[k]>>]

Init == /\ prog \in [Branches -> Progs]
        /\ pos = [b \in Branches |-> 0] /\ chan = [b \in Branches |-> <<>>]
        /\ st = [b \in Branches |-> "run"] /\ open = Branches /\ out = <<>> /\ hist = <<>>

Put(b) == /\ st[b] = "run" /\ pos[b] < Len(prog[b])
          /\ LET x == prog[b][pos[b] + 1] IN
             /\ x # "D" => Len(chan[b]) < Cap
             /\ pos' = [pos EXCEPT ![b] = @ + 1]
             /\ chan' = IF x = "D" THEN chan ELSE [chan EXCEPT ![b] = Append(@, <<b, pos[b] + 1, x>>)]
             /\ st' = [st EXCEPT ![b] = IF x = "D" THEN "dead" ELSE IF x = "K" THEN "ended" ELSE "run"]
             /\ hist' = Append(hist, <<b, x>>)
          /\ UNCHANGED <<prog, open, out>>
End(b) == /\ st[b] = "run" /\ pos[b] = Len(prog[b])
          /\ st' = [st EXCEPT ![b] = "ended"]
          /\ hist' = Append(hist, <<b, "end">>)
          /\ UNCHANGED <<prog, pos, chan, open, out>>
Take(b) == /\ b \in open /\ chan[b] # <<>>
           /\ out' = Append(out, Head(chan[b])) /\ chan' = [chan EXCEPT ![b] = Tail(@)]
           /\ hist' = Append(hist, <<0, Head(chan[b])[3]>>)
           /\ UNCHANGED <<prog, pos, st, open>>
Eof(b) == /\ b \in open /\ chan[b] = <<>> /\ st[b] # "run"
          /\ open' = open \ {b}
          /\ UNCHANGED <<prog, pos, chan, st, out, hist>>
Next == \E b \in Branches : Put(b) \/ End(b) \/ Take(b) \/ Eof(b)
Spec == Init /\ [][Next]_vars /\ \A b \in Branches : WF_vars(Put(b)) /\ WF_vars(End(b)) /\ WF_vars(Take(b)) /\ WF_vars(Eof(b))

(* ---- what is guaranteed *)
Of(s, b) == SelectSeq(s, LAMBDA x : x[1] = b)
Done == open = {}
\* what was taken from a branch, followed by what is in its channel, is what it sent: nothing lost, repeated or reordered
Delivery == \A b \in Branches : Of(out, b) \o chan[b] = SubSeq(Items(b), 1, Sent(b))
\* at the end every item of every branch has been delivered, whatever the other branches did
Complete == Done => \A b \in Branches : Of(out, b) = Items(b)
Nothing == Len(out) <= Cardinality(Branches) * (MaxSteps + 1)
Terminates == <>Done
\* one branch ending (well or badly) changes nothing about another
Independent == [][\A b \in Branches : st'[b] # st[b] => \A c \in Branches \ {b} : chan'[c] = chan[c] /\ st'[c] = st[c]]_vars

View == <<prog, pos, chan, st, open, out>>
Emit == IF open' = {} THEN PrintT("TRACE " \o ToJson([prog |-> prog, hist |-> hist'])) ELSE TRUE
=============================================================================
