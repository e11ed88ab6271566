------------------------------- MODULE Listing -------------------------------
(* What ls lists: names and patterns, resolved in a tree of directories, files and links; each file once; to the
   depth asked for; through links to directories only if they have not been listed, so that it ends.

   A tree is a function from canonical paths (sequences of names; <<>> is its top) to nodes
   [k: "d", "f" or "l", r, x: may be read and searched (directories), to: the path a link leads to].          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

-------------------------------------------------------------------------------
(* Names: order, and matching with patterns *)
Alphabet == " !#$%&'()+,-.0123456789:;<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ^_abcdefghijklmnopqrstuvwxyz{}~"
Ch(s, i) == SubSeq(s, i, i)
Rest(s) == SubSeq(s, 2, Len(s))
OrdOf == [c \in {Ch(Alphabet, i) : i \in 1..Len(Alphabet)} |-> CHOOSE i \in 1..Len(Alphabet) : Ch(Alphabet, i) = c]
Ord(c) == IF c \in DOMAIN OrdOf THEN OrdOf[c] ELSE 1000

RECURSIVE NameBefore(_, _), PathBefore(_, _)
NameBefore(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                    ELSE IF Ch(a, 1) = Ch(b, 1) THEN NameBefore(Rest(a), Rest(b)) ELSE Ord(Ch(a, 1)) < Ord(Ch(b, 1))
PathBefore(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE
                    ELSE IF Head(p) = Head(q) THEN PathBefore(Tail(p), Tail(q)) ELSE NameBefore(Head(p), Head(q))
Sorted(S) == SortSeq(SetToSeq(S), PathBefore)

Magic(s) == \E i \in 1..Len(s) : Ch(s, i) \in {"*", "?", "["}
\* a bracket: its end, and whether it accepts c. ] right after the [ (or the !) is a member.
Close(pat) == LET first == IF Len(pat) > 1 /\ Ch(pat, 2) = "!" THEN 4 ELSE 3
                  S == {i \in first..Len(pat) : Ch(pat, i) = "]"} IN
              IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
RECURSIVE Member(_, _)
Member(set, c) == IF set = "" THEN FALSE
                  ELSE IF Len(set) >= 3 /\ Ch(set, 2) = "-"
                       THEN (Ord(Ch(set, 1)) <= Ord(c) /\ Ord(c) <= Ord(Ch(set, 3))) \/ Member(SubSeq(set, 4, Len(set)), c)
                       ELSE Ch(set, 1) = c \/ Member(Rest(set), c)
RECURSIVE Match(_, _)
Match(pat, s) ==
  IF pat = "" THEN s = ""
  ELSE CASE Ch(pat, 1) = "*" -> Match(Rest(pat), s) \/ (s # "" /\ Match(pat, Rest(s)))
         [] Ch(pat, 1) = "?" -> s # "" /\ Match(Rest(pat), Rest(s))
         [] Ch(pat, 1) = "[" /\ Close(pat) # 0 ->
              LET e == Close(pat)
                  not == Ch(pat, 2) = "!"
                  set == SubSeq(pat, IF not THEN 3 ELSE 2, e - 1) IN
              s # "" /\ (Member(set, Ch(s, 1)) # not) /\ Match(SubSeq(pat, e + 1, Len(pat)), Rest(s))
         [] OTHER -> s # "" /\ Ch(pat, 1) = Ch(s, 1) /\ Match(Rest(pat), Rest(s))

RECURSIVE SplitFrom(_, _)
SplitFrom(s, name) == IF s = "" THEN <<name>>
                      ELSE IF Ch(s, 1) = "/" THEN <<name>> \o SplitFrom(Rest(s), "")
                      ELSE SplitFrom(Rest(s), name \o Ch(s, 1))
\* . and .. are resolved in the text
RECURSIVE Normal(_, _)
Normal(done, names) ==
  IF names = <<>> THEN done
  ELSE LET n == Head(names) IN
       IF n = "" \/ n = "." THEN Normal(done, Tail(names))
       ELSE IF n = ".." THEN Normal(SubSeq(done, 1, Len(done) - 1), Tail(names))
       ELSE Normal(Append(done, n), Tail(names))
\* of an argument [abs, text], in directory cwd
ArgPath(cwd, a) == Normal(IF a.abs THEN <<>> ELSE cwd, SplitFrom(a.text, ""))

-------------------------------------------------------------------------------
(* Where paths lead *)
None == <<"none">>
Denied == <<"denied">>
RECURSIVE Follow(_, _, _, _)
Follow(fs, done, rest, hops) ==
  IF rest = <<>> THEN <<"ok", done>>
  ELSE IF fs[done].k # "d" THEN None
  ELSE IF ~fs[done].x THEN Denied
  ELSE LET q == Append(done, Head(rest)) IN
       IF q \notin DOMAIN fs THEN None
       ELSE IF fs[q].k # "l" THEN Follow(fs, q, Tail(rest), hops)
       ELSE IF hops = 0 THEN None
       ELSE Follow(fs, <<>>, fs[q].to \o Tail(rest), hops - 1)
Resolve(fs, p) == Follow(fs, <<>>, p, 20)
\* the node a path names, a link included
Node(fs, p) ==
  IF p = <<>> THEN <<"ok", <<>>>>
  ELSE LET d == Resolve(fs, Front(p)) IN
       IF d[1] # "ok" THEN d
       ELSE IF fs[d[2]].k # "d" THEN None
       ELSE IF ~fs[d[2]].x THEN Denied
       ELSE IF Append(d[2], p[Len(p)]) \in DOMAIN fs THEN <<"ok", Append(d[2], p[Len(p)])>> ELSE None
Exists(fs, p) == Node(fs, p)[1] = "ok"
IsDir(fs, p) == LET d == Resolve(fs, p) IN d[1] = "ok" /\ fs[d[2]].k = "d"
IsLink(fs, p) == LET d == Node(fs, p) IN d[1] = "ok" /\ fs[d[2]].k = "l"
\* names in the directory a path leads to
Names(fs, p) == LET d == Resolve(fs, p)[2] IN {q[Len(q)] : q \in {z \in DOMAIN fs : Len(z) = Len(d) + 1 /\ Front(z) = d}}
Readable(fs, p) == IsDir(fs, p) /\ fs[Resolve(fs, p)[2]].r

-------------------------------------------------------------------------------
(* Patterns *)
\* real directories in and below p
RECURSIVE Below(_, _)
Below(fs, p) == {p} \cup (IF ~Readable(fs, p) THEN {}
                          ELSE UNION {Below(fs, Append(p, n)) : n \in {m \in Names(fs, p) : IsDir(fs, Append(p, m)) /\ ~IsLink(fs, Append(p, m))}})
\* After the first pattern, names are looked for in what directories show.
RECURSIVE Expand(_, _, _, _)
Expand(fs, paths, pat, wild) ==
  IF pat = <<>> THEN paths
  ELSE LET c == Head(pat)
           next == IF c = "**" THEN UNION {Below(fs, p) : p \in paths}
                   ELSE IF ~Magic(c) /\ ~wild THEN {Append(p, c) : p \in {q \in paths : Exists(fs, Append(q, c))}}
                   ELSE UNION {{Append(p, n) : n \in {m \in Names(fs, p) : IF Magic(c) THEN Match(c, m) ELSE c = m}} : p \in {q \in paths : Readable(fs, q)}}
       IN Expand(fs, IF Len(pat) = 1 THEN next ELSE {p \in next : IsDir(fs, p)}, Tail(pat), wild \/ Magic(c))
Denoted(fs, cwd, a) == Expand(fs, {<<>>}, ArgPath(cwd, a), FALSE)

-------------------------------------------------------------------------------
(* Listing: st = [out, emitted, visited] *)
Depth(flags) == IF "0" \in flags THEN 0 ELSE IF "r" \in flags THEN 2 ELSE 1
Wanted(flags, k) == flags \cap {"f", "d", "l"} = {} \/ k \in flags

Fail(st) == [st EXCEPT !.out = Append(@, <<"E">>)]
RECURSIVE Visit(_, _, _, _, _), VisitAll(_, _, _, _, _)
Visit(fs, flags, p, level, st) ==
  LET n == Node(fs, p) IN
  IF n[1] # "ok" THEN Fail(st)
  ELSE
  LET k == fs[n[2]].k
      s1 == IF Wanted(flags, k) /\ p \notin st.emitted
            THEN [st EXCEPT !.out = Append(@, <<"F", p>>), !.emitted = @ \cup {p}] ELSE st
      t == Resolve(fs, p)
      deeper == Depth(flags) = 2 \/ (Depth(flags) = 1 /\ level = 0) IN
  IF t[1] = "denied" THEN Fail(s1)
  ELSE IF t[1] # "ok" THEN s1
  ELSE IF fs[t[2]].k # "d" \/ ~deeper \/ (k = "l" /\ t[2] \in s1.visited) THEN s1
  ELSE LET s2 == [s1 EXCEPT !.visited = @ \cup {t[2]}] IN
       IF ~fs[t[2]].r THEN Fail(s2)
       ELSE VisitAll(fs, flags, Sorted({Append(p, m) : m \in Names(fs, p)}), level + 1, s2)
VisitAll(fs, flags, ps, level, st) ==
  IF ps = <<>> THEN st ELSE VisitAll(fs, flags, Tail(ps), level, Visit(fs, flags, Head(ps), level, st))

Roots(fs, cwd, args) == IF args = <<>> THEN {cwd} ELSE UNION {Denoted(fs, cwd, args[i]) : i \in 1..Len(args)}
\* what is listed: <<"F", path>> or <<"E">>, an error; Refused if the names denote nothing
Refused == <<<<"refused">>>>
Listed(fs, cwd, flags, args) ==
  LET roots == Roots(fs, cwd, args) IN
  IF roots = {} THEN Refused
  ELSE VisitAll(fs, flags, Sorted(roots), 0, [out |-> <<>>, emitted |-> {}, visited |-> {}]).out

\* Paths are shown relative to what the names have in common
CommonPrefix(p, q) == LET S == {i \in 0..Len(p) : i <= Len(q) /\ SubSeq(p, 1, i) = SubSeq(q, 1, i)} IN
                      SubSeq(p, 1, CHOOSE i \in S : \A j \in S : j <= i)
RECURSIVE CommonOf(_)
CommonOf(ps) == IF Len(ps) = 1 THEN ps[1] ELSE CommonPrefix(ps[1], CommonOf(Tail(ps)))
Base(fs, cwd, args) ==
  LET c == CommonOf(Sorted(Roots(fs, cwd, args)))
      t == Resolve(fs, c) IN
  IF t[1] = "ok" /\ fs[t[2]].k = "f" THEN Front(c) ELSE c
RECURSIVE Slashed(_)
Slashed(p) == IF p = <<>> THEN "." ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Slashed(Tail(p))
=============================================================================
