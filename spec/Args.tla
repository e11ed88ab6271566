------------------------------- MODULE Args -------------------------------
(* How the arguments of an operator are bound to its declared options and parameters, or refused.

   An argument is a record. k: "w" a word, "q" a quoted text, "c" a parenthesised constant, "f" a parenthesised function
   of Core, "p" a pipeline. Of a word: t its text, codes its characters, dash: it begins with "-" and is longer than that, parts: of a single
   dash followed by several letters, the flags with these letters; num: <<n>> if it is a numeral.
   Of a constant: v. Of a function: e. Of a pipeline: params, pipe. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Fl(name, short, long, arity, type) == [name |-> name, short |-> short, long |-> long, arity |-> arity, type |-> type]
Sw(name, short, long) == Fl(name, short, long, "none", "")
Opt(name, short, long, type) == Fl(name, short, long, "one", type)
May(name, short, long, type) == Fl(name, short, long, "optional", type)
Must(name, type) == [name |-> name, type |-> type, opt |-> FALSE]
Can(name, type) == [name |-> name, type |-> type, opt |-> TRUE]

(* What the operators declare, as their help describes it. list: the type of any number of further arguments, or "".
   excl: at most one of each group; one: exactly one of each group. verbatim: what follows the first argument that is
   not a flag is not examined for flags. *)
Decl(flags, pos, list, excl, one) == [flags |-> flags, pos |-> pos, list |-> list, excl |-> excl, one |-> one, verbatim |-> FALSE]
Plain(pos) == Decl(<<>>, pos, "", {}, {})
Depth == <<Sw("d0", "-0", ""), Sw("d1", "-1", ""), Sw("dr", "-r", "--recursive")>>
Declared ==
  [args |-> Decl(<<Sw("all", "-a", "--all")>>, <<Must("pipeline", "pipe")>>, "", {}, {}),
   bash |-> [Decl(<<Sw("interactive", "-i", "--interactive")>>, <<>>, "any", {}, {}) EXCEPT !.verbatim = TRUE],
   bg |-> Decl(<<Opt("job", "-j", "--job", "int"), Opt("process", "-p", "--process", "int")>>, <<Can("JOB", "int")>>, "", {}, {{"job", "process", "JOB"}}),
   fg |-> Decl(<<Opt("job", "-j", "--job", "int"), Opt("process", "-p", "--process", "int")>>, <<Can("JOB", "int")>>, "", {}, {{"job", "process", "JOB"}}),
   cd |-> Plain(<<Can("DIR", "any")>>),
   difference |-> Plain(<<Must("pipeline", "pipe")>>),
   dirs |-> Decl(<<Sw("clear", "-c", "--clear")>>, <<>>, "", {}, {}),
   edit |-> Decl(<<May("startup", "-s", "--startup", "name")>>, <<Can("N", "int")>>, "", {{"startup", "N"}}, {}),
   env |-> Decl(<<Opt("delete", "-d", "--delete", "name"), Opt("pattern", "-p", "--pattern", "name"), Sw("builtins", "-b", "--builtins"),
                  Sw("os", "-o", "--os")>>, <<Can("VAR", "name")>>, "", {{"delete", "VAR", "pattern"}, {"delete", "os"}, {"builtins", "os"}}, {}),
   exit |-> Plain(<<>>),
   expand |-> Plain(<<Can("POSITION", "int")>>),
   filter |-> Decl(<<Sw("keep", "-k", "--keep"), Sw("discard", "-d", "--discard"), Opt("compare", "-c", "--compare", "fn")>>,
                   <<Must("pipeline", "pipe")>>, "", {{"keep", "discard"}}, {}),
   gen |-> Decl(<<Opt("pad", "-p", "--pad", "int")>>, <<Can("COUNT", "int"), Can("START", "int")>>, "", {}, {}),
   head |-> Plain(<<Must("N", "int")>>),
   history |-> Decl(<<Opt("command", "-c", "--command", "name"), Sw("all", "-a", "--all")>>, <<Can("N", "int")>>, "", {{"all", "N"}}, {}),
   import |-> Decl(<<Opt("as", "-a", "--as", "name")>>, <<Must("MODULE", "name"), Can("SYMBOL", "name")>>, "", {}, {}),
   intersect |-> Decl(<<>>, <<>>, "pipe", {}, {}),
   jobs |-> Plain(<<>>),
   join |-> Decl(<<Sw("keep", "-k", "--keep")>>, <<Must("pipeline", "pipe")>>, "", {}, {}),
   load |-> Plain(<<Must("VAR", "name")>>),
   ls |-> Decl(Depth \o <<Sw("file", "-f", "--file"), Sw("dir", "-d", "--dir"), Sw("symlink", "-s", "--symlink")>>, <<>>, "any", {{"d0", "d1", "dr"}}, {}),
   map |-> Plain(<<Must("function", "fn")>>),
   popd |-> Plain(<<>>),
   ps |-> Decl(<<May("user", "-u", "--user", "name"), May("group", "-g", "--group", "name"), Opt("pid", "-p", "--pid", "name"),
                 Opt("command", "-c", "--command", "name")>>, <<>>, "", {{"user", "group", "pid", "command"}}, {}),
   pushd |-> Plain(<<Can("DIR", "any")>>),
   pwd |-> Plain(<<>>),
   read |-> Decl(Depth \o <<Sw("csv", "-c", "--csv"), Sw("tsv", "-t", "--tsv"), Sw("headings", "-h", "--headings"),
                            Sw("skip", "-s", "--skip-headings"), Sw("pickle", "-p", "--pickle"), Sw("json", "-j", "--json"),
                            Sw("label", "-l", "--label")>>, <<>>, "any",
                 {{"d0", "d1", "dr"}, {"csv", "tsv", "pickle", "json"}, {"headings", "skip"}}, {}),
   red |-> Decl(<<Sw("incremental", "-i", "--incremental")>>, <<>>, "fn", {}, {}),
   reverse |-> Plain(<<>>),
   run |-> Plain(<<Can("N", "int")>>),
   select |-> Plain(<<Must("function", "fn")>>),
   sort |-> Plain(<<Can("KEY", "fn")>>),
   squish |-> Plain(<<Can("FUNCTION", "fn")>>),
   store |-> Decl(<<Sw("append", "-a", "--append")>>, <<Must("VAR", "name")>>, "", {}, {}),
   tail |-> Plain(<<Must("N", "int")>>),
   timer |-> Plain(<<Must("INTERVAL", "float")>>),
   trace |-> Decl(<<Sw("off", "-0", "--off"), Sw("on", "-1", "--on"), Opt("file", "-f", "--file", "name")>>, <<>>, "", {{"on", "off", "file"}}, {}),
   union |-> Decl(<<>>, <<>>, "pipe", {}, {}),
   unique |-> Decl(<<Sw("consecutive", "-c", "--consecutive")>>, <<>>, "", {}, {}),
   version |-> Plain(<<>>),
   window |-> Decl(<<Opt("overlap", "-o", "--overlap", "int"), Opt("disjoint", "-d", "--disjoint", "int")>>, <<Can("PREDICATE", "fn")>>, "",
                   {}, {{"overlap", "disjoint", "PREDICATE"}}),
   write |-> Decl(<<Sw("csv", "-c", "--csv"), Sw("tsv", "-t", "--tsv"), Sw("pickle", "-p", "--pickle"), Opt("format", "-f", "--format", "any"),
                    Sw("append", "-a", "--append")>>, <<Can("FILENAME", "any")>>, "", {{"csv", "tsv", "pickle", "format"}}, {}),
   ws |-> Decl(<<Sw("list", "-l", "--list"), Opt("new", "-n", "--new", "name"), Opt("open", "-o", "--open", "name"), Sw("close", "-c", "--close"),
                 Opt("delete", "-d", "--delete", "name"), Sw("broken", "-b", "--delete-broken"), Opt("home", "-h", "--home", "name"),
                 Opt("rename", "-r", "--rename", "name"), Opt("copy", "-2", "--copy", "name"), Opt("export", "-e", "--export", "name"),
                 Opt("import", "-i", "--import", "name")>>, <<Can("NAME", "name")>>, "",
               {{"list", "new", "open", "close", "delete", "broken", "rename", "copy", "export", "import"}}, {})]

Symbols == {"+", "*", "max", "min", "count", "concat", "last", "sub", ".", "^", "&", "|", "and", "or"}

(* ------------------------------------------------------------------ values *)
Bad == <<"bad">>
Any_ == <<"?">>
Convert(type, a) ==
  CASE type = "name" -> IF a.k \in {"w", "q"} THEN <<"s", a.codes>> ELSE Bad
    [] a.k = "w" ->
         (CASE type \in {"int", "float"} -> IF a.num # <<>> THEN <<"i", a.num[1]>> ELSE Bad
            [] type = "any" -> <<"s", a.codes>>
            [] type = "fn" -> IF a.t \in Symbols THEN <<"sym", a.t>> ELSE Bad
            [] type = "pipe" -> Bad)
    [] a.k = "q" -> IF type = "any" THEN <<"s", a.codes>> ELSE Any_
    [] a.k = "c" -> IF type = "int" THEN <<"i", a.v>> ELSE IF type = "any" THEN <<"i", a.v>> ELSE IF type = "pipe" THEN Bad ELSE Any_
    [] a.k = "f" -> IF type = "fn" THEN <<"e", a.e>> ELSE IF type = "pipe" THEN Bad ELSE IF type = "any" THEN <<"e", a.e>> ELSE Any_
    [] a.k = "p" -> IF type = "pipe" THEN <<"p", a.params, a.pipe>> ELSE IF type = "fn" THEN Bad ELSE Any_

(* ------------------------------------------------------------------ binding *)
FlagOf(d, t) == LET js == {j \in 1..Len(d.flags) : t # "" /\ (d.flags[j].short = t \/ d.flags[j].long = t)} IN
                IF js = {} THEN 0 ELSE CHOOSE j \in js : TRUE

(* Letters after a single dash are flags if each of them is one. *)
Expand(d, a) == IF a.k = "w" /\ Len(a.parts) > 1 /\ \A j \in 1..Len(a.parts) : FlagOf(d, a.parts[j]) > 0
                THEN [j \in 1..Len(a.parts) |-> [k |-> "w", t |-> a.parts[j], dash |-> TRUE, parts |-> <<>>, num |-> <<>>, codes |-> <<>>]]
                ELSE <<a>>

None_ == <<>>
Here == <<"here">>
Start(d) == [ok |-> "", flags |-> [j \in 1..Len(d.flags) |-> None_], pos |-> [j \in 1..Len(d.pos) |-> None_], list |-> <<>>,
             n |-> 0, cur |-> 0, open |-> d.flags # <<>>]
Refuse(b, why) == IF b.ok # "" THEN b ELSE [b EXCEPT !.ok = why]

\* a value, of the current flag or of the next parameter
Value(d, b, a) ==
  IF b.cur > 0 THEN
    LET v == Convert(d.flags[b.cur].type, a) IN
    IF v = Bad THEN Refuse(b, "value") ELSE [b EXCEPT !.flags[b.cur] = v, !.cur = 0]
  ELSE IF b.n < Len(d.pos) THEN
    LET v == Convert(d.pos[b.n + 1].type, a) IN
    IF v = Bad THEN Refuse(b, "value") ELSE [b EXCEPT !.pos[b.n + 1] = v, !.n = b.n + 1, !.open = FALSE]
  ELSE IF d.list # "" THEN
    LET v == Convert(d.list, a) IN
    IF v = Bad THEN Refuse(b, "value") ELSE [b EXCEPT !.list = Append(b.list, v), !.open = FALSE]
  ELSE Refuse(b, "surplus")

One(d, b, a) ==
  LET verbatim == d.verbatim /\ ~b.open
      j == IF a.k = "w" /\ ~verbatim THEN FlagOf(d, a.t) ELSE 0 IN
  IF b.ok # "" THEN b
  ELSE IF j > 0 THEN
    IF ~b.open THEN Refuse(b, "late flag")
    ELSE IF b.flags[j] # None_ THEN Refuse(b, "repeated flag")
    ELSE IF b.cur > 0 /\ d.flags[b.cur].arity = "one" THEN Refuse(b, "missing value")
    ELSE [b EXCEPT !.flags[j] = Here, !.cur = IF d.flags[j].arity = "none" THEN 0 ELSE j]
  ELSE IF a.k = "w" /\ a.dash /\ b.open THEN Refuse(b, "unknown flag")
  ELSE Value(d, b, a)

RECURSIVE Fold(_, _, _)
Fold(d, b, as) == IF as = <<>> THEN b ELSE Fold(d, One(d, b, Head(as)), Tail(as))
RECURSIVE All(_, _, _)
All(d, b, as) == IF as = <<>> THEN b
                 ELSE All(d, Fold(d, b, IF d.verbatim /\ ~b.open THEN <<Head(as)>> ELSE Expand(d, Head(as))), Tail(as))

Names(d, b) == {d.flags[j].name : j \in {j \in 1..Len(d.flags) : b.flags[j] # None_}} \cup {d.pos[j].name : j \in 1..b.n}

BindArgs(op, args) ==
  LET d == Declared[op]
      b == All(d, Start(d), args)
      names == Names(d, b) IN
  IF b.ok # "" THEN b
  ELSE IF b.cur > 0 /\ d.flags[b.cur].arity = "one" THEN Refuse(b, "missing value")
  ELSE IF \E group \in d.excl : Cardinality(group \cap names) > 1 THEN Refuse(b, "excluded")
  ELSE IF \E group \in d.one : Cardinality(group \cap names) # 1 THEN Refuse(b, "exactly one")
  ELSE IF \E j \in 1..Len(d.pos) : ~d.pos[j].opt /\ j > b.n THEN Refuse(b, "missing argument")
  ELSE b

Unknown(b) == Any_ \in {b.flags[j] : j \in 1..Len(b.flags)} \cup {b.pos[j] : j \in 1..Len(b.pos)} \cup {b.list[j] : j \in 1..Len(b.list)}
KeyOf(op, b) == ToJson(<<op, b.flags, b.pos, b.list>>)

\* the value bound to a name: <<>> if there is none
Bound(op, b, name) ==
  LET d == Declared[op]
      fs == {j \in 1..Len(d.flags) : d.flags[j].name = name}
      ps == {j \in 1..Len(d.pos) : d.pos[j].name = name} IN
  IF fs # {} THEN b.flags[CHOOSE j \in fs : TRUE] ELSE b.pos[CHOOSE j \in ps : TRUE]
Has(op, b, name) == Bound(op, b, name) # None_
=============================================================================
