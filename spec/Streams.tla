------------------------------- MODULE Streams -------------------------------
(* Stored streams: variables holding the output of pipelines, and files in pickle format.

   A stream is kept in a file, which pipelines open to read (load, read -p) and to write (store, write -p),
   possibly several times at once, since pipelines run inside pipelines. A file which a pipeline has open for
   writing can be opened by nobody else, and one that is open for reading not for writing.

   A pipeline is a source, a middle and a sink:
     source:  <<"gen", n>> rows 0..n-1;  <<"x">> the row for which the pipeline is run;  <<"load", v>>;
              <<"del", v>> deletes variable v and gives no rows
     middle:  <<"id">>;  <<"bad">> refused by its operator before anything runs;
              <<"err", v>> rows equal to v fail, the others are passed on;
              <<"kill", k>> the command is aborted at the k-th row;
              <<"args", p>> runs pipeline p for every row, and passes on its output;
              <<"case", v, p>> runs pipeline p, prepared before the command runs, for every row equal to v; drops the others
     sink:    <<"out">>;  <<"store", v, append>>
   The state: vars, files, and what is open (rd: how often for reading, wr: for writing).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Vars,         \* names of variables
          MaxRows,      \* longest stream considered
          MaxLen,       \* commands in a behaviour
          Rich          \* the commands considered: FALSE the small set, TRUE all

VARIABLES vars,     \* name -> <<"none">> | <<"val", n>> | <<"res", file>>
          files,    \* file -> rows; only those which exist. A file has the name of the variable it was created for
          hist
state == <<vars, files, hist>>

Errors == 99           \* stands for an error among the output

S0 == [vars |-> vars, files |-> files, rd |-> [v \in Vars |-> 0], wr |-> {}]
R(st, out, kill) == [st |-> st, out |-> out, kill |-> kill]

CanRead(st, f) == f \notin st.wr
CanWrite(st, f) == f \notin st.wr /\ st.rd[f] = 0
Referred(vs, f, but) == \E v \in Vars \ {but} : vs[v] = <<"res", f>>

\* variable v loses its value: the file goes with the last variable having it. FALSE: it is in use
CanDiscard(st, v) == st.vars[v][1] # "res" \/ Referred(st.vars, st.vars[v][2], v) \/ CanWrite(st, st.vars[v][2])
Discard(st, v) ==
  IF st.vars[v][1] = "res" /\ ~Referred(st.vars, st.vars[v][2], v)
  THEN [st EXCEPT !.files = [f \in DOMAIN st.files \ {st.vars[v][2]} |-> st.files[f]]]
  ELSE st

OpenRead(st, v) == IF st.vars[v][1] # "res" THEN R(st, <<>>, "kill")
                   ELSE IF ~CanRead(st, st.vars[v][2]) THEN R(st, <<>>, "kill")
                   ELSE R([st EXCEPT !.rd[st.vars[v][2]] = @ + 1], <<>>, "")
CloseRead(st, f) == [st EXCEPT !.rd[f] = @ - 1]

(* A store creates the variable before its file is opened. *)
OpenWrite(st, v, append) ==
  IF append /\ st.vars[v][1] = "val" THEN R(st, <<>>, "kill")
  ELSE IF st.vars[v][1] # "res" /\ v \in DOMAIN st.files THEN R(st, <<>>, "U")   \* another variable has the file of that name
  ELSE LET st1 == IF st.vars[v][1] = "res" THEN st ELSE [st EXCEPT !.vars[v] = <<"res", v>>]
           f == st1.vars[v][2] IN
       IF ~CanWrite(st1, f) THEN R(st1, <<>>, "kill")
       ELSE R([st1 EXCEPT !.wr = @ \cup {f}, !.files = (f :> (IF append /\ f \in DOMAIN st1.files THEN st1.files[f] ELSE <<>>)) @@ @], <<>>, "")
CloseWrite(st, f) == [st EXCEPT !.wr = @ \ {f}]

(* Operators are prepared in order; when one is refused, what the others opened is closed. file: what was opened. *)
RECURSIVE Prepare(_, _), Release(_, _), Run(_, _, _), Rows(_, _, _, _, _), Pass(_, _, _), Middle(_, _, _, _), RunPrepared(_, _, _)
Closed(p, st, n) ==     \* the first n parts of p are prepared: close them
  LET a == IF n >= 1 /\ p.src[1] = "load" THEN CloseRead(st, p.srcfile) ELSE st
      b == IF n >= 2 /\ p.mid[1] = "case" THEN Release(p.mid[3], a) ELSE a
  IN IF n >= 3 /\ p.sink[1] = "store" THEN CloseWrite(b, p.sinkfile) ELSE b

(* gives the pipeline with the files its operators use: [p, st, kill] *)
Prepare(p, st) ==
  LET a == IF p.src[1] = "load" THEN OpenRead(st, p.src[2]) ELSE R(st, <<>>, "")
      p1 == IF p.src[1] = "load" /\ a.kill = "" THEN [p EXCEPT !.srcfile = a.st.vars[p.src[2]][2], !.fresh = TRUE] ELSE p IN
  IF a.kill # "" THEN [p |-> p1, st |-> a.st, kill |-> a.kill]
  ELSE IF p.mid[1] = "bad" THEN [p |-> p1, st |-> Closed(p1, a.st, 1), kill |-> "kill"]
  ELSE LET c == IF p.mid[1] = "case" THEN Prepare(p.mid[3], a.st) ELSE [p |-> p1, st |-> a.st, kill |-> ""]
           p2 == IF p.mid[1] = "case" THEN [p1 EXCEPT !.mid = <<"case", p.mid[2], c.p>>] ELSE p1 IN
       IF c.kill # "" THEN [p |-> p2, st |-> Closed(p1, c.st, 1), kill |-> c.kill]
       ELSE LET d == IF p.sink[1] = "store" THEN OpenWrite(c.st, p.sink[2], p.sink[3]) ELSE R(c.st, <<>>, "")
                p3 == IF p.sink[1] = "store" /\ d.kill = "" THEN [p2 EXCEPT !.sinkfile = d.st.vars[p.sink[2]][2]] ELSE p2 IN
            IF d.kill # "" THEN [p |-> p3, st |-> Closed(p2, d.st, 2), kill |-> d.kill]
            ELSE [p |-> p3, st |-> d.st, kill |-> ""]
Release(p, st) == Closed(p, st, 3)

\* output o of the middle goes to the sink
Pass(p, o, st) ==
  IF o = <<>> THEN R(st, <<>>, "")
  ELSE IF p.sink[1] = "out" THEN R(st, o, "")
  ELSE R([st EXCEPT !.files[p.sinkfile] = @ \o SelectSeq(o, LAMBDA y : y # Errors)],
         SelectSeq(o, LAMBDA y : y = Errors), "")

Middle(p, x, k, st) ==
  CASE p.mid[1] = "id"   -> R(st, <<x>>, "")
    [] p.mid[1] = "err"  -> R(st, <<IF x = p.mid[2] THEN Errors ELSE x>>, "")
    [] p.mid[1] = "kill" -> IF k = p.mid[2] THEN R(st, <<>>, "kill") ELSE R(st, <<x>>, "")
    [] p.mid[1] = "args" -> Run(p.mid[2], x, st)
    [] p.mid[1] = "case" -> IF x # p.mid[2] THEN R(st, <<>>, "") ELSE RunPrepared(p.mid[3], x, st)

Rows(p, xs, k, st, out) ==
  IF k > Len(xs) THEN R(st, out, "")
  ELSE LET m == IF xs[k] = Errors THEN R(st, <<Errors>>, "") ELSE Middle(p, xs[k], k, st)
           s == Pass(p, m.out, m.st) IN
       IF m.kill # "" THEN R(s.st, out \o s.out, m.kill)
       ELSE Rows(p, xs, k + 1, s.st, out \o s.out)

Source(p, x, st) ==
  CASE p.src[1] = "gen"  -> R(st, [j \in 1..p.src[2] |-> j - 1], "")
    [] p.src[1] = "x"    -> R(st, <<x>>, "")
    [] p.src[1] = "load" -> R(st, st.files[p.srcfile], "")
    [] p.src[1] = "del"  -> IF st.vars[p.src[2]][1] = "none" THEN R(st, <<>>, "U")
                            ELSE IF ~CanDiscard(st, p.src[2]) THEN R(st, <<>>, "kill")
                            ELSE R([Discard(st, p.src[2]) EXCEPT !.vars[p.src[2]] = <<"none">>], <<>>, "")

(* a branch of case: it stays prepared until the command ends *)
RunPrepared(p, x, st) ==
  LET s == Source(p, x, st) IN
  IF s.kill # "" THEN s ELSE Rows(p, s.out, 1, s.st, <<>>)

Run(p, x, st) ==
  LET q == Prepare(p, st) IN
  IF q.kill # "" THEN R(q.st, <<>>, q.kill)
  ELSE LET r == RunPrepared(q.p, x, q.st) IN R(Release(q.p, r.st), r.out, r.kill)

(* ------------------------------------------------------------------ commands *)
Pipe(src, mid, sink) == [src |-> src, mid |-> mid, sink |-> sink, srcfile |-> "", sinkfile |-> "", fresh |-> FALSE]
Sinks == {<<"out">>} \cup {<<"store", v, a>> : v \in Vars, a \in BOOLEAN}
Sources == {<<"gen", 1>>, <<"gen", 2>>} \cup {<<"load", v>> : v \in Vars}
InnerSources == {<<"x">>, <<"gen", 1>>} \cup {<<"load", v>> : v \in Vars} \cup (IF Rich THEN {<<"del", v>> : v \in Vars} ELSE {})
SimpleMiddles == {<<"id">>, <<"bad">>, <<"err", 0>>, <<"kill", 2>>}
Inner == {Pipe(s, m, k) : s \in InnerSources, m \in (IF Rich THEN SimpleMiddles ELSE {<<"id">>}), k \in Sinks}
\* a branch of case receives the row: its source is the row or a load
Branches == {Pipe(s, m, k) : s \in {<<"x">>} \cup {<<"load", v>> : v \in Vars}, m \in {<<"id">>, <<"bad">>}, k \in Sinks}
Middles == SimpleMiddles \cup {<<"args", p>> : p \in Inner} \cup {<<"case", v, p>> : v \in {0, 1}, p \in Branches}
           \cup (IF Rich THEN {<<"args", Pipe(s, <<"args", p>>, <<"out">>)>> : s \in {<<"x">>} \cup {<<"load", v>> : v \in Vars},
                                 p \in {Pipe(i, <<"id">>, k) : i \in InnerSources, k \in Sinks}} ELSE {})
Pipelines == {Pipe(s, m, k) : s \in Sources, m \in Middles, k \in Sinks}
PlainStores == {Pipe(s, <<"id">>, k) : s \in Sources, k \in Sinks}
Others == {<<"set", v>> : v \in Vars} \cup {<<"del", v>> : v \in Vars} \cup {<<"alias", v, w>> : v \in Vars, w \in Vars}

Small(fs) == \A f \in DOMAIN fs : Len(fs[f]) <= MaxRows
Content(vs, fs) == [v \in Vars |-> IF vs[v][1] = "res" THEN <<"res", fs[vs[v][2]]>> ELSE vs[v]]
Note(c, out, kill) == hist' = Append(hist, [c |-> c, out |-> out, kill |-> kill, see |-> Content(vars', files')])

RunCommand(p) ==
  LET r == Run(p, 0, S0) IN
  /\ r.kill # "U" /\ Small(r.st.files)
  /\ vars' = r.st.vars /\ files' = r.st.files
  /\ Note(<<"run", p>>, r.out, r.kill)
OtherCommand(c) ==
  /\ LET st == Discard(S0, c[2]) IN
     CASE c[1] = "set" -> /\ vars' = [vars EXCEPT ![c[2]] = <<"val", 7>>] /\ files' = st.files
       [] c[1] = "del" -> /\ vars[c[2]] # <<"none">>
                          /\ vars' = [vars EXCEPT ![c[2]] = <<"none">>] /\ files' = st.files
       [] c[1] = "alias" -> /\ c[2] # c[3] /\ vars[c[3]][1] = "res" /\ vars[c[2]] # vars[c[3]]
                            /\ vars' = [vars EXCEPT ![c[2]] = vars[c[3]]] /\ files' = st.files
  /\ Note(c, <<>>, "")

Order == CHOOSE o \in [1..Cardinality(Vars) -> Vars] : \A i, j \in 1..Cardinality(Vars) : i # j => o[i] # o[j]

Init == vars = [v \in Vars |-> <<"none">>] /\ files = [f \in {} |-> <<>>] /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ IF Rich    \* for simulation: random choices
           THEN IF Len(hist) < 3
                THEN RunCommand(Pipe(<<"gen", <<2, 1, 2>>[Len(hist) + 1]>>, <<"id">>, <<"store", Order[Len(hist) + 1], FALSE>>))
                ELSE
                \/ \E p \in RandomSubset(6, Pipelines) : RunCommand(p)
                \/ \E p \in RandomSubset(3, PlainStores) : RunCommand(p)
                \/ \E c \in RandomSubset(1, Others) : OtherCommand(c)
           ELSE \/ \E p \in Pipelines : RunCommand(p)
                \/ \E c \in Others : OtherCommand(c)
Spec == Init /\ [][Next]_state

(* ------------------------------------------------------------------ properties *)
\* every stream some variable has is there, and nothing else
FilesOK == DOMAIN files = {vars[v][2] : v \in {u \in Vars : vars[u][1] = "res"}}

LastCmd == hist'[Len(hist')]
RECURSIVE Written(_), Read(_), MidWritten(_), MidRead(_)
MidWritten(m) == IF m[1] = "args" THEN Written(m[2]) ELSE IF m[1] = "case" THEN Written(m[3]) ELSE {}
MidRead(m) == IF m[1] = "args" THEN Read(m[2]) ELSE IF m[1] = "case" THEN Read(m[3]) ELSE {}
Written(p) == (IF p.sink[1] = "store" THEN {p.sink[2]} ELSE {}) \cup MidWritten(p.mid) \cup (IF p.src[1] = "del" THEN {p.src[2]} ELSE {})
Read(p) == (IF p.src[1] = "load" THEN {p.src[2]} ELSE {}) \cup MidRead(p.mid)
\* what a command does not write is as it was
OthersUnchanged ==
  [][hist' # hist /\ LastCmd.c[1] = "run" =>
       \A v \in Vars : vars[v][1] = "res" /\ (\A w \in Written(LastCmd.c[2]) : vars[w] # vars[v])
                       => vars'[v] = vars[v] /\ files'[vars[v][2]] = files[vars[v][2]]]_state
\* storing over what the same pipeline reads is refused, and leaves it intact
Protected ==
  [][hist' # hist /\ LastCmd.c[1] = "run" /\ LastCmd.c[2].src[1] = "load" =>
       LET p == LastCmd.c[2] v == p.src[2] IN
       vars[v][1] = "res" /\ v \in Written(p) =>
         /\ vars'[v] = vars[v] /\ files'[vars[v][2]] = files[vars[v][2]]
         /\ (p.sink[1] = "store" /\ p.sink[2] = v => LastCmd.kill = "kill")]_state
\* appending keeps what was there; a plain copy gives the same rows
AppendKeeps ==
  [][hist' # hist /\ LastCmd.c[1] = "run" =>
       LET p == LastCmd.c[2] IN
       p.mid = <<"id">> /\ p.sink[1] = "store" /\ LastCmd.kill = "" =>
         LET v == p.sink[2]
             src == IF p.src[1] = "load" THEN files[vars[p.src[2]][2]] ELSE [j \in 1..p.src[2] |-> j - 1]
             old == IF p.sink[3] /\ vars[v][1] = "res" THEN files[vars[v][2]] ELSE <<>> IN
         files'[vars'[v][2]] = old \o src]_state

View == <<vars, files, Len(hist)>>
Emit == IF Len(hist') = MaxLen THEN PrintT("TRACE " \o ToJson(hist')) ELSE TRUE
=============================================================================
