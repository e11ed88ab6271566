----------------------------- MODULE StorageTrace -----------------------------
(* Users: prints the trees of all users. Traces: recorded starts on these trees, judged. *)
EXTENDS Storage, Json, IOUtils
Recorded == JsonDeserialize(IOEnv.TRACE)
VARIABLES n
\* recorded users have their workspaces as a sequence
ToSet(s) == {s[i] : i \in 1..Len(s)}
UserOf(r) == [r.user EXCEPT !.named = ToSet(@)]
Tree(t) == TreeOf({<<x[1], x[2]>> : x \in ToSet(t)})
Same(a, b) == LET main(t) == {p \in DOMAIN t : ~Allowed(p)} IN main(a) = main(b) /\ \A p \in main(a) : a[p] = b[p]
Judge(r) ==
  LET u == UserOf(r)
      ts == [i \in DOMAIN r.trees |-> Tree(r.trees[i])]
      bad(i) == IF r.ends[i] \notin {"ok", "died"} THEN "the start failed"
                ELSE IF ~SafeOK(u, ts[i + 1]) THEN "something is lost"
                ELSE IF r.ends[i] = "ok" /\ ~DoneOK(u, ts[i + 1]) THEN "the files are not up to date"
                ELSE IF r.ends[i] = "ok" /\ i > 1 /\ r.ends[i - 1] = "ok" /\ ~Same(ts[i], ts[i + 1]) THEN "files which were up to date changed"
                ELSE ""
      wrong == {i \in DOMAIN r.ends : bad(i) # ""}
  IN IF Len(r.trees) # Len(r.ends) + 1 \/ Tree(r.trees[1]) # TreeOf(Files(u)) THEN [start |-> 0, what |-> "harness"]
     ELSE IF wrong = {} THEN [start |-> 0, what |-> ""]
     ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j IN [start |-> i, what |-> bad(i)]
TInit == /\ n = 0 /\ user = (CHOOSE u \in Users : Valid(u)) /\ tree = <<>> /\ todo = <<>> /\ starting = "" /\ deaths = 0
TNext == /\ n < Len(Recorded) /\ n' = n + 1 /\ UNCHANGED vars
         /\ PrintT("VERDICT " \o ToJson([n |-> n, verdict |-> Judge(Recorded[n + 1])]))
Spec2 == TInit /\ [][TNext]_<<n, vars>>
UInit == n = 0 /\ Init
UNext == n = 0 /\ n' = 1 /\ UNCHANGED vars
         /\ PrintT("USER " \o ToJson([user |-> user, files |-> Files(user)]))
Spec1 == UInit /\ [][UNext]_<<n, vars>>
===============================================================================
