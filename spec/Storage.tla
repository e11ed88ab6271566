------------------------------- MODULE Storage --------------------------------
(* Where marcel keeps its files, in every version, and how a start brings the files of an older version up to date.

   A tree is a function from paths to what is there: Dir, or the content of a file. Contents are <<kind, owner>>,
   owner "" being the default workspace. A path starts with "home", "config" or "data" (marcel's directories).
   A migration is a sequence of steps; marcel can die before any of them, and the next start sees what there is.
   Histories from before prompt_toolkit's format give way to a notice.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Dir == <<"dir", "">>
(* What a user may have: *)
\* layout; startup, hist, res: whether these files are there; named: other workspaces; version: of the VERSION file
Users == [layout : {"fresh", "original", "xdg", "ws1", "ws2", "ws3", "pt"}, startup : BOOLEAN, hist : {"none", "old", "empty", "new"}, res : BOOLEAN,
          named : SUBSET {"v", "w"}, version : {"none", "old", "new"}]
\* those which were possible
Valid(u) ==
  /\ u.layout = "fresh" => u.startup /\ u.hist = "none" /\ ~u.res /\ u.named = {} /\ u.version = "none"
  /\ u.layout \in {"original", "xdg"} => u.startup /\ ~u.res /\ u.named = {}
  /\ u.layout = "original" => u.version = "none"
  /\ u.layout \in {"ws2", "ws3", "pt"} => u.startup
  /\ u.layout = "pt" => u.version # "none" /\ u.hist \in {"empty", "new"} /\ u.res
  /\ u.layout # "pt" => u.hist # "new" /\ u.version # "new"
  \* whether an empty history is of the new format is told by the version, which is written last
  /\ u.layout = "pt" /\ u.hist = "empty" => u.version = "new"

HistoryIn(layout) == IF layout = "pt" THEN "pthist" ELSE "hist"
DC(layout) == (CASE layout = "ws2" -> <<"config", "__DEFAULT_WORKSPACE__">> [] layout \in {"ws3", "pt", "fresh"} -> <<"config", "workspace", "__DEFAULT__">> [] OTHER -> <<"config">>)
DD(layout) == (CASE layout = "ws2" -> <<"data", "__DEFAULT_WORKSPACE__">> [] layout \in {"ws3", "pt", "fresh"} -> <<"data", "workspace", "__DEFAULT__">> [] OTHER -> <<"data">>)
NC(layout, w) == IF layout \in {"ws3", "pt"} THEN <<"config", "workspace", w>> ELSE <<"config", w>>
ND(layout, w) == IF layout \in {"ws3", "pt"} THEN <<"data", "workspace", w>> ELSE <<"data", w>>

Files(u) ==   \* set of <<path, content>>
  LET l == u.layout
      hist(p, w) == IF u.hist = "none" THEN {} ELSE {<<Append(p, "history"), IF u.hist = "empty" THEN <<"empty", "">> ELSE <<HistoryIn(l), w>>>>}
      startup(p, w) == {<<Append(p, "startup.py"), <<"startup", w>>>>}
      marker(p) == {<<Append(p, ".WORKSPACE"), <<"empty", "">>>>}
      res(p, w) == {<<Append(p, "reservoirs"), Dir>>, <<p \o <<"reservoirs", "r.pickle">>, <<"res", w>>>>}
  IN (CASE l = "fresh" -> {}
        [] l = "original" -> {<<<<"home", ".marcel.py">>, <<"startup", "">>>>} \cup {<<<<"home", ".marcel_history">>, x[2]>> : x \in hist(<<>>, "")}
        [] l = "xdg" -> startup(<<"config">>, "") \cup hist(<<"data">>, "")
        [] OTHER -> (IF u.startup THEN startup(DC(l), "") ELSE {}) \cup marker(DC(l)) \cup hist(DD(l), "")
                    \cup (IF u.res THEN {<<Append(DD(l), "reservoirs"), Dir>>} ELSE {})
                    \cup UNION {startup(NC(l, w), w) \cup marker(NC(l, w)) \cup hist(ND(l, w), w) \cup res(ND(l, w), w)
                                \cup {<<Append(ND(l, w), "env.pickle"), <<"env", w>>>>, <<Append(ND(l, w), "properties.pickle"), <<"prop", w>>>>} : w \in u.named})
     \cup (IF u.version = "none" THEN {} ELSE {<<<<"config", "VERSION">>, <<"version", u.version>>>>})
     \cup (IF l \in {"xdg", "ws1", "ws2", "ws3", "pt"} THEN {<<<<"data">>, Dir>>, <<<<"config">>, Dir>>} ELSE {})
     \cup (IF l \in {"ws2", "ws3", "pt"} THEN {<<DD(l), Dir>>} ELSE {})

Prefixes(p) == {SubSeq(p, 1, n) : n \in 1..Len(p) - 1}
\* the tree of a set of <<path, content>>, with the directories which hold the files
TreeOf(S) == LET files == {x[1] : x \in S}
                 dirs == UNION {Prefixes(p) : p \in files} \ (files \cup {<<"home">>})
             IN [p \in files \cup dirs |-> IF p \in dirs THEN Dir ELSE (CHOOSE x \in S : x[1] = p)[2]]

----------------------------------------------------------------------------
(* What has to be there after a start *)
Required(u) ==
  LET l == u.layout
      c == DC("pt")  d == DD("pt")
      \* an old history, or one that was not there, becomes a notice
      h(w) == IF l = "pt" THEN (IF u.hist = "empty" THEN <<"empty", "">> ELSE <<"pthist", w>>) ELSE IF l = "fresh" THEN <<"empty", "">> ELSE <<"notice", "">>
  IN {<<Append(c, ".WORKSPACE"), <<"empty", "">>>>,
      <<Append(c, "startup.py"), IF l = "fresh" \/ ~u.startup THEN <<"default", "">> ELSE <<"startup", "">>>>,
      <<Append(d, "history"), IF u.startup THEN h("") ELSE <<"empty", "">>>>, <<Append(d, "reservoirs"), Dir>>,
      <<<<"config", "VERSION">>, <<"version", "new">>>>}
     \cup UNION {{<<NC("pt", w) \o <<".WORKSPACE">>, <<"empty", "">>>>, <<NC("pt", w) \o <<"startup.py">>, <<"startup", w>>>>,
                  <<ND("pt", w) \o <<"history">>, h(w)>>, <<ND("pt", w) \o <<"env.pickle">>, <<"env", w>>>>,
                  <<ND("pt", w) \o <<"properties.pickle">>, <<"prop", w>>>>, <<ND("pt", w) \o <<"reservoirs", "r.pickle">>, <<"res", w>>>>} : w \in u.named}
\* what may be there as well: a VERSION file that was being written, what was set aside, the files of running processes
Allowed(p) == \/ Len(p) >= 2 /\ p[2] \in {"broken", "VERSION.n"}
              \/ Len(p) = 4 /\ SubSeq(p, 1, 3) = DD("pt") /\ p[4] = "n.env.pickle"
DoneOK(u, tree) ==
  /\ \A x \in Required(u) : x[1] \in DOMAIN tree /\ tree[x[1]] = x[2]
  /\ \A p \in DOMAIN tree : tree[p] # Dir /\ ~Allowed(p) => \E x \in Required(u) : x[1] = p
\* at any time, what the user has exists, somewhere, once
Contents(u) == {x[2] : x \in {x \in Files(u) : x[2] # Dir}} \ ({<<"empty", "">>, <<"version", "old">>, <<"version", "new">>} \cup {<<"hist", w>> : w \in {"", "v", "w"}})
SafeOK(u, tree) == \A c \in Contents(u) : Cardinality({p \in DOMAIN tree : tree[p] = c}) = 1

----------------------------------------------------------------------------
(* The migrations *)
VARIABLES user, tree, todo, starting, deaths
vars == <<user, tree, todo, starting, deaths>>

Has(p) == p \in DOMAIN tree
Old(p) == Has(p) /\ tree[p] \notin {<<"empty", "">>} /\ tree[p][1] \notin {"pthist", "notice"}
Layout ==
  LET h == Append(DD("pt"), "history") IN
  IF Has(<<"config", "workspace">>) /\ ~Old(h)
     /\ ((Has(h) /\ tree[h] # <<"empty", "">>) \/ (Has(<<"config", "VERSION">>) /\ tree[<<"config", "VERSION">>] = <<"version", "new">>)) THEN "pt"
  ELSE IF Has(<<"config", "workspace", "__DEFAULT__">>) THEN "ws3"
  ELSE IF Has(<<"config", "__DEFAULT_WORKSPACE__">>) /\ ~Has(<<"config", ".WORKSPACE">>) THEN "ws2"
  ELSE IF Has(<<"config", ".WORKSPACE">>) THEN "ws1"
  ELSE IF Has(<<"config", "startup.py">>) THEN "xdg"
  ELSE IF Has(<<"home", ".marcel.py">>) THEN "original"
  ELSE "fresh"

Under(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Subdirs(p) == {q[Len(q)] : q \in {q \in DOMAIN tree : Len(q) = Len(p) + 1 /\ Under(p, q) /\ tree[q] = Dir}}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Map(F(_), s) == [i \in DOMAIN s |-> F(s[i])]

C(x) == Append(<<"config">>, x)
D(x) == Append(<<"data">>, x)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
MoveOthers(b) == LET mv(w) == <<"mv", <<b, w>>, <<b, "workspace", w>>>> IN Map(mv, SetToSeq(Subdirs(<<b>>) \ {"workspace", "__DEFAULT_WORKSPACE__"}))
Fix(b) == <<<<"mkdir", <<b, "workspace">>>>>> \o MoveOthers(b) \o <<<<"mv", <<b, "__DEFAULT_WORKSPACE__">>, <<b, "workspace", "__DEFAULT__">>>>>>
Rewrite(w) == LET h == <<"data", "workspace", w, "history">> IN <<<<"rm", h>>, <<"put", h, <<"empty", "">>>>, <<"put", h, <<"notice", "">>>>>>
PutDefault == <<<<"mkdir", DC("pt")>>, <<"put", Append(DC("pt"), "startup.py"), <<"default", "">>>>, <<"mkdir", DD("pt")>>, <<"mkdir", Append(DD("pt"), "reservoirs")>>,
                <<"put", Append(DD("pt"), "history"), <<"empty", "">>>>, <<"put", Append(DC("pt"), ".WORKSPACE"), <<"empty", "">>>>>>
SetAside == <<<<"mv", DC("pt"), <<"config", "broken", "__DEFAULT__">>>>, <<"mv", DD("pt"), <<"data", "broken", "__DEFAULT__">>>>>>
Version == <<<<"put", <<"config", "VERSION">>, <<"version", "new">>>>>>
\* the default workspace lacks something
Lacking == \E p \in {Append(DC("pt"), "startup.py"), Append(DD("pt"), "history"), Append(DD("pt"), "reservoirs")} : ~Has(p)

Steps(layout) ==
  (CASE layout = "original" -> <<<<"mkdir", <<"config">>>>, <<"mkdir", <<"data">>>>, <<"mv", <<"home", ".marcel_history">>, D("history")>>, <<"mv", <<"home", ".marcel.py">>, C("startup.py")>>>>
     [] layout = "xdg" -> <<<<"mkdir", <<"data">>>>, <<"mkdir", D("reservoirs")>>, <<"put", C(".WORKSPACE"), <<"empty", "">>>>>>
     [] layout = "ws1" -> <<<<"mkdir", D("__DEFAULT_WORKSPACE__")>>, <<"mv", D("history"), <<"data", "__DEFAULT_WORKSPACE__", "history">>>>,
                            <<"mv", D("reservoirs"), <<"data", "__DEFAULT_WORKSPACE__", "reservoirs">>>>,
                            <<"mkdir", C("__DEFAULT_WORKSPACE__")>>, <<"mv", C("startup.py"), <<"config", "__DEFAULT_WORKSPACE__", "startup.py">>>>,
                            <<"mv", C(".WORKSPACE"), <<"config", "__DEFAULT_WORKSPACE__", ".WORKSPACE">>>>>>
     [] layout = "ws2" -> Fix("data") \o Fix("config") \o <<<<"mkdir", <<"config", "broken">>>>, <<"mkdir", <<"data", "broken">>>>>>
     [] layout = "ws3" -> <<<<"mkdir", DD("pt")>>, <<"mkdir", Append(DD("pt"), "reservoirs")>>>>
                          \o Flat(Map(Rewrite, SetToSeq(Subdirs(<<"data", "workspace">>) \ {"__DEFAULT__"}))) \o Rewrite("__DEFAULT__")
     [] layout = "fresh" -> <<<<"mkdir", <<"config">>>>, <<"mkdir", <<"config", "workspace">>>>, <<"mkdir", <<"config", "broken">>>>, <<"mkdir", <<"data">>>>,
                              <<"mkdir", <<"data", "workspace">>>>, <<"mkdir", <<"data", "broken">>>>>> \o Version \o PutDefault \o <<<<"end">>>>
     \* the end of a start
     [] layout = "pt" -> Version \o (IF Lacking THEN SetAside \o PutDefault ELSE IF Has(Append(DC("pt"), ".WORKSPACE")) THEN <<>> ELSE <<<<"put", Append(DC("pt"), ".WORKSPACE"), <<"empty", "">>>>>>) \o <<<<"end">>>>)

Restrict(S) == [p \in S |-> tree[p]]
Mkdir(p) == LET new == ({p} \cup Prefixes(p)) \ DOMAIN tree IN [q \in DOMAIN tree \cup new |-> IF q \in new THEN Dir ELSE tree[q]]
Move(p, q) == IF ~Has(p) \/ Has(q) THEN tree
              ELSE LET moved == {r \in DOMAIN tree : Under(p, r)}
                       to(r) == q \o SubSeq(r, Len(p) + 1, Len(r))
                       new == {to(r) : r \in moved} \cup (Prefixes(q) \ DOMAIN tree) IN
                   [r \in (DOMAIN tree \ moved) \cup new |->
                      IF \E s \in moved : to(s) = r THEN tree[CHOOSE s \in moved : to(s) = r] ELSE IF r \in DOMAIN tree THEN tree[r] ELSE Dir]
Put(p, x) == (p :> x) @@ Mkdir(SubSeq(p, 1, Len(p) - 1))
Apply(s) == (CASE s[1] = "mkdir" -> Mkdir(s[2]) [] s[1] = "mv" -> Move(s[2], s[3]) [] s[1] = "put" -> Put(s[2], s[3])
               [] s[1] = "rm" -> Restrict(DOMAIN tree \ {s[2]}) [] s[1] = "end" -> tree)

Init == /\ user \in {u \in Users : Valid(u)}
        /\ tree = TreeOf(Files(user)) /\ todo = <<>> /\ starting = "" /\ deaths = 0
Start == /\ starting = "" /\ starting' = "started" /\ todo' = Steps(Layout) /\ UNCHANGED <<user, tree, deaths>>
\* a migration is followed by the next
Go == /\ starting = "started" /\ todo = <<>> /\ todo' = Steps(Layout) /\ UNCHANGED <<user, tree, starting, deaths>>
Step == /\ starting = "started" /\ todo # <<>>
        /\ tree' = Apply(todo[1]) /\ todo' = Tail(todo)
        /\ starting' = (IF todo[1] = <<"end">> THEN "done" ELSE starting)
        /\ UNCHANGED <<user, deaths>>
Die == starting = "started" /\ deaths < 2 /\ deaths' = deaths + 1 /\ starting' = "" /\ todo' = <<>> /\ UNCHANGED <<user, tree>>
Again == starting = "done" /\ deaths < 3 /\ deaths' = 3 /\ starting' = "" /\ todo' = <<>> /\ UNCHANGED <<user, tree>>
Next == Start \/ Go \/ Step \/ Die \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Go \/ Step)

Done == starting = "done" => DoneOK(user, tree)
Safe == SafeOK(user, tree)
\* a start on current files changes nothing (what users have is as it was; at most a marker is renewed)
CurrentUnchanged == [][deaths = 3 => tree' = tree]_vars
Ends == <>(starting = "done")
===============================================================================
