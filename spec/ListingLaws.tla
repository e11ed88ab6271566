----------------------------- MODULE ListingLaws -----------------------------
(* The traversal against declarative statements, for all small trees with links, arguments and flags. *)
EXTENDS Listing
CONSTANTS Slots, Targets, ArgTexts, MaxArgs
D == [k |-> "d", r |-> TRUE, x |-> TRUE, to |-> <<>>]
F == [k |-> "f", r |-> TRUE, x |-> TRUE, to |-> <<>>]
L(t) == [k |-> "l", r |-> TRUE, x |-> TRUE, to |-> t]
Kinds == {D, F} \cup {L(t) : t \in Targets}
SlotsDef == <<<<"a">>, <<"b">>, <<"a", "a">>, <<"a", "b">>>>
TargetsDef == {<<>>, <<"b">>}
BigSlots == <<<<"a">>, <<"b">>, <<"a", "a">>, <<"a", "b">>, <<"b", "a">>>>
BigTargets == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>}
VARIABLES fs, todo, args, flags
vars == <<fs, todo, args, flags>>
Top == <<>> :> D
Init == fs = Top /\ todo = Slots /\ args = <<>> /\ flags \in {{"0"}, {}, {"r"}, {"r", "f"}, {"r", "d", "l"}}
Fill == /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<args, flags>>
        /\ \/ fs' = fs
           \/ /\ Front(Head(todo)) \in DOMAIN fs /\ fs[Front(Head(todo))].k = "d"
              /\ \E n \in Kinds : fs' = (Head(todo) :> n) @@ fs
Name == /\ todo = <<>> /\ Len(args) < MaxArgs /\ UNCHANGED <<fs, todo, flags>>
        /\ \E t \in ArgTexts : args' = Append(args, [abs |-> FALSE, text |-> t])
Spec == Init /\ [][Fill \/ Name]_vars

Listing(as) == Listed(fs, <<>>, flags, as)
R == Roots(fs, <<>>, args)
Children(p) == {Append(p, n) : n \in Names(fs, p)}
\* flags = {"0"}: the names only; {}: one level
NamesOnly(ps) == flags = {"0"} => ps = R
OneLevel(ps) == flags = {} => /\ R \subseteq ps
                              /\ \A p \in ps : p \in R \/ (Front(p) \in R /\ IsDir(fs, Front(p)))
                              /\ \A p \in R : (IsDir(fs, p) /\ ~IsLink(fs, p)) => Children(p) \subseteq ps
AncestorsFirst(out) == \A i, j \in 1..Len(out) : IsStrictPrefix(out[i][2], out[j][2]) => i < j
\* everything within what is listed is listed, under the name of some way to it; by its own name, unless a link is on the way
Everything(ps) == flags = {"r"} =>
   LET nodes == {Node(fs, q)[2] : q \in ps} IN
   \A p \in ps : IsDir(fs, p) => /\ \A n \in Names(fs, p) : Append(Resolve(fs, p)[2], n) \in nodes
                                 /\ ~IsLink(fs, p) => Children(p) \subseteq ps
\* the order of the arguments, naming something twice, names which denote nothing next to others, and the way to say
\* them from another directory do not matter
SameFrom(out) == /\ Len(args) = 2 => Listing(<<args[2], args[1]>>) = out /\ Listing(Append(args, args[1])) = out
                 /\ args # <<>> => Listing(Append(args, [abs |-> FALSE, text |-> "nosuch"])) = out
                 /\ <<"a">> \in DOMAIN fs /\ fs[<<"a">>].k = "d" /\ args # <<>> =>
                       Listed(fs, <<"a">>, flags, [i \in 1..Len(args) |-> [abs |-> FALSE, text |-> "../" \o args[i].text]]) = out
Laws == todo = <<>> =>
  LET out == Listing(args) ps == {out[i][2] : i \in 1..Len(out)} IN
  out # Refused => /\ Cardinality(ps) = Len(out)
                   /\ \A p \in ps : Exists(fs, p) /\ Wanted(flags, fs[Node(fs, p)[2]].k)
                   /\ NamesOnly(ps) /\ OneLevel(ps) /\ AncestorsFirst(out) /\ Everything(ps) /\ SameFrom(out)
=============================================================================
