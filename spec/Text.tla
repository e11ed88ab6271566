-------------------------------- MODULE Text --------------------------------
(* What the text of a command means: characters -> tokens -> command of Core.

   A text is a sequence of code points. Lex gives the tokens
       <<"sym", s>>                 one of (| |) | = , : > >> >$ >>$ < <$
       <<"str", codes, q>>          a string: its characters after removal of quotes and escapes, q = anything quoted
       <<"expr", codes>>            a Python expression: what is between the parentheses
       <<"cat", parts>>             strings and expressions written without whitespace between them
   or Bad if the text has no meaning. Parse gives the command, in the notation of Core and CoreTrace:
       <<"ok", command>>, <<"bad">> (must be refused), <<"any">> (not determined here).

   The text of Python expressions, and the names of operators and variables, are given by two tables (what an
   expression means is the business of Core):
       words:  sequence of [w, codes]
       exprs:  sequence of [codes, kind, e]; kind: "val" (a value), "fn" (function of a row), "fn0" (a value,
               written as a function without parameters), "show" (the function which shows a row as its repr)                           *)
EXTENDS Core

CONSTANTS Words, Exprs

TAB == 9  NL == 10  SPACE == 32  BANG == 33  DQ == 34  HASH == 35  DOLLAR == 36  SQ == 39  OPEN == 40  CLOSE == 41
COMMA == 44  COLON == 58  LESS == 60  EQUALS == 61  GREATER == 62  AT == 64  ESC == 92  BAR == 124
Blank == {TAB, NL, 13, SPACE}
Ends == Blank \cup {OPEN, CLOSE, BAR, EQUALS, HASH, COMMA, COLON, LESS, GREATER}

At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0
Bad == <<"bad">>
NotHere == <<"any">>

(* ---------------------------------------------------------------- strings
   Scan a string from position i: <<"str", codes, anything quoted, position after it>>                           *)
RECURSIVE Scan(_, _, _, _, _)
Scan(t, i, q, acc, quoted) ==
  LET c == At(t, i) IN
  IF c = 0 THEN (IF q = 0 THEN <<"str", acc, quoted, i>> ELSE Bad)
  ELSE IF q = 0 THEN
    (IF c \in Ends THEN <<"str", acc, quoted, i>>
     ELSE IF c \in {DQ, SQ} THEN Scan(t, i + 1, c, acc, TRUE)
     ELSE IF c = ESC THEN (IF i = Len(t) THEN Bad ELSE Scan(t, i + 2, 0, Append(acc, t[i + 1]), TRUE))
     ELSE Scan(t, i + 1, 0, Append(acc, c), quoted))
  ELSE IF c = q THEN Scan(t, i + 1, 0, acc, TRUE)
  ELSE IF q = DQ /\ c = ESC /\ At(t, i + 1) \in {DQ, ESC} THEN Scan(t, i + 2, q, Append(acc, t[i + 1]), TRUE)
  ELSE Scan(t, i + 1, q, Append(acc, c), TRUE)

(* ---------------------------------------------------------------- Python expressions
   The position after the parenthesis closing the one before i, 0 if there is none. Parentheses in Python strings
   do not count.                                                                                                 *)
Triple(t, i, q) == At(t, i) = q /\ At(t, i + 1) = q /\ At(t, i + 2) = q
RECURSIVE PyString(_, _, _, _), Balance(_, _, _)
PyString(t, i, q, triple) ==            \* position after the string, 0 if it does not end
  IF i > Len(t) THEN 0
  ELSE IF t[i] = ESC THEN PyString(t, i + 2, q, triple)
  ELSE IF triple /\ Triple(t, i, q) THEN i + 3
  ELSE IF ~triple /\ t[i] = q THEN i + 1
  ELSE PyString(t, i + 1, q, triple)
Balance(t, i, depth) ==
  IF depth = 0 THEN i
  ELSE IF i > Len(t) THEN 0
  ELSE IF t[i] = OPEN THEN Balance(t, i + 1, depth + 1)
  ELSE IF t[i] = CLOSE THEN Balance(t, i + 1, depth - 1)
  ELSE IF t[i] \in {DQ, SQ} THEN
    LET triple == Triple(t, i, t[i])
        e == PyString(t, IF triple THEN i + 3 ELSE i + 1, t[i], triple) IN
    IF e = 0 THEN 0 ELSE Balance(t, e, depth)
  ELSE Balance(t, i + 1, depth)

(* ---------------------------------------------------------------- tokens *)
RECURSIVE SkipBlank(_, _), Lex(_, _, _), Adjacent(_, _, _)
SkipBlank(t, i) == IF At(t, i) \in Blank THEN SkipBlank(t, i + 1) ELSE i

Sym(t, i) ==
  LET a == At(t, i) b == At(t, i + 1) c == At(t, i + 2) IN
  CASE a = OPEN /\ b = BAR -> "(|"
    [] a = BAR /\ b = CLOSE -> "|)"
    [] a = BAR /\ b # CLOSE -> "|"
    [] a = EQUALS -> "="
    [] a = COMMA -> ","
    [] a = COLON -> ":"
    [] a = GREATER /\ b = GREATER /\ c = DOLLAR -> ">>$"
    [] a = GREATER /\ b = DOLLAR -> ">$"
    [] a = GREATER /\ b = GREATER /\ c # DOLLAR -> ">>"
    [] a = GREATER /\ b # GREATER /\ b # DOLLAR -> ">"
    [] a = LESS /\ b = DOLLAR -> "<$"
    [] a = LESS /\ b # DOLLAR -> "<"
    [] OTHER -> ""
SymLen(s) == CASE s = ">>$" -> 3 [] s \in {"(|", "|)", ">$", ">>", "<$"} -> 2 [] OTHER -> 1

\* the part (string or expression) at position i: <<part, position after it>>, or Bad
Part(t, i) ==
  IF t[i] = OPEN THEN
    LET e == Balance(t, i + 1, 1) IN
    IF e = 0 THEN Bad ELSE <<"part", <<"expr", SubSeq(t, i + 1, e - 2)>>, e>>
  ELSE LET s == Scan(t, i, 0, <<>>, FALSE) IN
       IF s = Bad THEN Bad ELSE <<"part", <<"str", s[2], s[3]>>, s[4]>>

StartsPart(t, i) == /\ i <= Len(t) /\ Sym(t, i) = ""
                    /\ t[i] \notin Blank \cup {HASH, CLOSE}
                    /\ t[i] \notin {BANG, AT}

\* all parts from position i on, without anything between them
Adjacent(t, i, parts) ==
  IF ~StartsPart(t, i) THEN <<"parts", parts, i>>
  ELSE LET p == Part(t, i) IN
       IF p = Bad THEN Bad ELSE Adjacent(t, p[3], Append(parts, p[2]))

Lex(t, i0, toks) ==
  LET i == SkipBlank(t, i0) IN
  IF i > Len(t) \/ At(t, i) = HASH THEN <<"toks", toks>>
  ELSE IF Sym(t, i) # "" THEN Lex(t, i + SymLen(Sym(t, i)), Append(toks, <<"sym", Sym(t, i)>>))
  ELSE IF t[i] = CLOSE THEN Bad
  ELSE IF t[i] \in {BANG, AT} THEN NotHere
  ELSE LET a == Adjacent(t, i, <<>>) IN
       IF a = Bad THEN Bad
       ELSE IF At(t, a[3]) \in {BANG, AT} THEN NotHere          \* what follows an expression
       ELSE Lex(t, a[3], Append(toks, IF Len(a[2]) = 1 THEN a[2][1] ELSE <<"cat", a[2]>>))

(* ---------------------------------------------------------------- names, numbers, expressions *)
Word(codes) == IF \E j \in 1..Len(Words) : Words[j].codes = codes
               THEN Words[CHOOSE j \in 1..Len(Words) : Words[j].codes = codes].w ELSE "?"
Name(tok) == IF tok[1] = "str" /\ ~tok[3] THEN Word(tok[2]) ELSE "?"
IsNumber(codes) == codes # <<>> /\ Len(codes) < 6 /\ \A j \in 1..Len(codes) : codes[j] \in 48..57
RECURSIVE Number(_, _)
Number(codes, acc) == IF codes = <<>> THEN acc ELSE Number(Tail(codes), 10 * acc + Head(codes) - 48)
ExprOf(codes) == IF \E j \in 1..Len(Exprs) : Exprs[j].codes = codes
                 THEN Exprs[CHOOSE j \in 1..Len(Exprs) : Exprs[j].codes = codes] ELSE [kind |-> "?", e |-> <<"none">>]
StrC(codes) == <<"c", <<"s", codes>>>>

\* the value of a token used as an argument: <<"val", expression>>, or NotHere
ArgVal(tok) ==
  CASE tok[1] = "str" -> <<"val", StrC(tok[2])>>
    [] tok[1] = "expr" -> IF ExprOf(tok[2]).kind = "val" THEN <<"val", ExprOf(tok[2]).e>>
                          ELSE IF ExprOf(tok[2]).kind = "fn0" THEN <<"val", ExprOf(tok[2]).e>> ELSE NotHere
    [] tok[1] = "cat" ->
         LET part(p) == IF p[1] = "str" THEN StrC(p[2]) ELSE ExprOf(p[2]).e IN
         IF \E j \in 1..Len(tok[2]) : tok[2][j][1] = "expr" /\ ExprOf(tok[2][j][2]).kind # "val" THEN NotHere
         ELSE <<"val", <<"cat", [j \in 1..Len(tok[2]) |-> part(tok[2][j])]>>>>
    [] OTHER -> NotHere

(* ---------------------------------------------------------------- operators and their arguments
   OpOf(name, args): the operator of Core, or NotHere. An argument is a token or <<"pipe", params, pipeline>>.        *)
OpNames == {"gen", "map", "select", "head", "tail", "reverse", "unique", "sort", "squish", "expand", "args", "union",
            "difference", "intersect", "load", "store", "window", "join", "case", "filter", "red"}

Num(a) == a[1] = "str" /\ ~a[3] /\ IsNumber(a[2])
Fn(a) == a[1] = "expr" /\ ExprOf(a[2]).kind = "fn"
Val(a) == a[1] = "expr" /\ ExprOf(a[2]).kind \in {"val", "fn0"}
IsPipe(a) == a[1] = "pipe"
Lit(a) == <<"lit", a[2], a[3]>>
None3 == <<"none">>

(* An operator which is not determined here. It has no effect on variables and files, unless its name is unknown or
   that of store. *)
AnyOp == [op |-> "any", effect |-> FALSE]
AnyEffect == [op |-> "any", effect |-> TRUE]
MapOf(a) == IF a[1] \in {"expr", "cat"} THEN
              (IF a[1] = "expr" /\ ExprOf(a[2]).kind = "show" THEN [op |-> "show"]
               ELSE IF Fn(a) THEN [op |-> "map", e |-> ExprOf(a[2]).e]
               ELSE LET v == ArgVal(a) IN IF v = NotHere THEN AnyOp ELSE [op |-> "map", e |-> <<"0", v[2]>>])
            ELSE AnyOp

RECURSIVE NumbersOf(_)
NumbersOf(args) == [j \in 1..Len(args) |-> Number(args[j][2], 0)]

OpOf(name, args) ==
  LET n == Len(args)
      one == n = 1
      allPipes == n > 0 /\ \A j \in 1..n : IsPipe(args[j]) /\ args[j][2] = <<>> IN
  CASE name = "map" -> IF one THEN MapOf(args[1]) ELSE AnyOp
    [] name = "gen" -> IF n \in {1, 2} /\ \A j \in 1..n : Num(args[j]) THEN
                          LET v == NumbersOf(args) IN
                          IF v[1] = 0 THEN AnyOp ELSE [op |-> "gen", n |-> v[1], start |-> IF n = 2 THEN v[2] ELSE 0]
                       ELSE IF n = 1 /\ Val(args[1]) THEN [op |-> "genv", e |-> ExprOf(args[1][2]).e, start |-> 0]
                       ELSE IF n = 2 /\ Val(args[1]) /\ Num(args[2])
                            THEN [op |-> "genv", e |-> ExprOf(args[1][2]).e, start |-> Number(args[2][2], 0)]
                       ELSE AnyOp
    [] name \in {"head", "tail"} -> IF one /\ Num(args[1]) /\ Number(args[1][2], 0) > 0
                                    THEN [op |-> name, n |-> Number(args[1][2], 0)] ELSE AnyOp
    [] name = "select" -> IF one /\ Fn(args[1]) THEN [op |-> "select", e |-> ExprOf(args[1][2]).e] ELSE AnyOp
    [] name = "sort" -> IF n = 0 THEN [op |-> "sort", e |-> None3]
                        ELSE IF one /\ Fn(args[1]) THEN [op |-> "sort", e |-> ExprOf(args[1][2]).e] ELSE AnyOp
    [] name = "reverse" -> IF n = 0 THEN [op |-> "reverse"] ELSE AnyOp
    [] name = "unique" -> IF n = 0 THEN [op |-> "unique", c |-> FALSE] ELSE AnyOp
    [] name = "squish" -> IF n = 0 THEN [op |-> "squish", f |-> "+"] ELSE AnyOp
    [] name = "expand" -> IF n = 0 THEN [op |-> "expand", n |-> 0 - 1]
                          ELSE IF one /\ Num(args[1]) THEN [op |-> "expand", n |-> Number(args[1][2], 0)] ELSE AnyOp
    [] name = "args" -> IF one /\ IsPipe(args[1]) /\ args[1][2] # <<>>
                        THEN [op |-> "args", all |-> FALSE, arg |-> Lit(args[1])] ELSE AnyOp
    [] name \in {"union", "intersect"} -> IF allPipes THEN [op |-> name, args |-> [j \in 1..n |-> Lit(args[j])]] ELSE AnyOp
    [] name = "difference" -> IF one /\ allPipes THEN [op |-> "difference", arg |-> Lit(args[1])] ELSE AnyOp
    [] name = "join" -> IF one /\ allPipes THEN [op |-> "join", keep |-> FALSE, arg |-> Lit(args[1])] ELSE AnyOp
    [] name = "case" -> IF n > 0 /\ n % 2 = 0 /\ \A j \in 1..n : IF j % 2 = 1 THEN Fn(args[j]) ELSE IsPipe(args[j]) /\ args[j][2] = <<>>
                        THEN [op |-> "case", default |-> FALSE,
                              branches |-> [j \in 1..(n \div 2) |-> <<ExprOf(args[2 * j - 1][2]).e, Lit(args[2 * j])>>]]
                        ELSE AnyOp
    [] name = "load" -> IF one /\ Name(args[1]) # "?" THEN [op |-> "load", name |-> Name(args[1])] ELSE AnyOp
    [] name = "store" -> IF one /\ Name(args[1]) # "?" THEN [op |-> "store", name |-> Name(args[1]), append |-> FALSE] ELSE AnyEffect
    [] name \in OpNames -> AnyOp
    [] name = "?" -> AnyEffect
    [] OTHER -> \* the name of a variable: its value is run
         IF \E j \in 1..n : args[j][1] = "str" /\ args[j][2] # <<>> /\ args[j][2][1] = 45 /\ ~args[j][3] THEN AnyOp     \* flags
         ELSE IF \E j \in 1..n : ~IsPipe(args[j]) /\ ArgVal(args[j]) = NotHere THEN AnyOp
         ELSE [op |-> "call", name |-> name, kwnames |-> <<>>, kwvals |-> <<>>,
               args |-> [j \in 1..n |-> IF IsPipe(args[j]) THEN <<"pv", args[j][2], args[j][3]>> ELSE ArgVal(args[j])[2]]]

(* ---------------------------------------------------------------- grammar
   Recursive descent over the tokens. A result is <<"ok", what, position of the next token>> or Bad. Operators which
   are not determined here are kept as AnyOp in the pipeline.                                                       *)
IsSym(ts, i, s) == i <= Len(ts) /\ ts[i][1] = "sym" /\ ts[i][2] = s
IsStr(ts, i) == i <= Len(ts) /\ ts[i][1] = "str"
IsExpr(ts, i) == i <= Len(ts) /\ ts[i][1] \in {"expr", "cat"}
IsIn(ts, i) == IsSym(ts, i, "<") \/ IsSym(ts, i, "<$")
IsOut(ts, i) == \E s \in {">", ">>", ">$", ">>$"} : IsSym(ts, i, s)

RedirectIn(sym, tok) ==
  IF sym = "<$" THEN (IF Name(tok) = "?" THEN AnyOp ELSE [op |-> "load", name |-> Name(tok)])
  ELSE [op |-> "read", file |-> tok[2]]
RedirectOut(sym, tok) ==
  IF sym \in {">$", ">>$"} THEN (IF Name(tok) = "?" THEN AnyEffect ELSE [op |-> "store", name |-> Name(tok), append |-> sym = ">>$"])
  ELSE [op |-> "write", file |-> tok[2], append |-> sym = ">>"]

RECURSIVE PVars(_, _, _), PPipe(_, _), PSeq(_, _, _), PArgs(_, _, _), POp(_, _), PBody(_, _, _), POut(_, _, _)

\* the parameters of a pipeline, up to the colon
PVars(ts, i, vs) ==
  IF ~IsStr(ts, i) THEN Bad
  ELSE IF IsSym(ts, i + 1, ",") THEN PVars(ts, i + 2, Append(vs, Name(ts[i])))
  ELSE IF IsSym(ts, i + 1, ":") THEN <<"ok", Append(vs, Name(ts[i])), i + 2>>
  ELSE Bad

PPipe(ts, i) ==
  IF IsStr(ts, i) /\ (IsSym(ts, i + 1, ",") \/ IsSym(ts, i + 1, ":"))
  THEN LET v == PVars(ts, i, <<>>) IN IF v = Bad THEN Bad ELSE PBody(ts, v[3], v[2])
  ELSE PBody(ts, i, <<>>)

PBody(ts, i, params) ==
  IF IsStr(ts, i) /\ IsIn(ts, i + 1) THEN
    LET in == RedirectIn(ts[i + 1][2], ts[i]) IN
    IF IsOut(ts, i + 2) THEN
      (IF IsStr(ts, i + 3) THEN <<"ok", <<params, <<in, RedirectOut(ts[i + 2][2], ts[i + 3])>>>>, i + 4>> ELSE Bad)
    ELSE IF i + 2 > Len(ts) \/ IsSym(ts, i + 2, "|)") THEN <<"ok", <<params, <<in>>>>, i + 2>>
    ELSE LET s == PSeq(ts, i + 2, <<in>>) IN
         IF s = Bad THEN Bad ELSE POut(ts, s, params)
  ELSE IF IsOut(ts, i) /\ IsStr(ts, i + 1) THEN <<"ok", <<params, <<RedirectOut(ts[i][2], ts[i + 1])>>>>, i + 2>>
  ELSE LET s == PSeq(ts, i, <<>>) IN
       IF s = Bad THEN Bad ELSE POut(ts, s, params)

\* redirection of the output, at the end
POut(ts, s, params) ==
  IF IsOut(ts, s[3]) /\ IsStr(ts, s[3] + 1)
  THEN <<"ok", <<params, Append(s[2], RedirectOut(ts[s[3]][2], ts[s[3] + 1]))>>, s[3] + 2>>
  ELSE <<"ok", <<params, s[2]>>, s[3]>>

PSeq(ts, i, ops) ==
  LET o == POp(ts, i) IN
  IF o = Bad THEN Bad
  ELSE IF IsSym(ts, o[3], "|") THEN PSeq(ts, o[3] + 1, Append(ops, o[2]))
  ELSE <<"ok", Append(ops, o[2]), o[3]>>

POp(ts, i) ==
  IF IsExpr(ts, i) THEN <<"ok", MapOf(ts[i]), i + 1>>
  ELSE IF IsStr(ts, i) THEN
    LET a == PArgs(ts, i + 1, <<>>) IN
    IF a = Bad THEN Bad ELSE <<"ok", OpOf(Name(ts[i]), a[2]), a[3]>>
  ELSE Bad

PArgs(ts, i, args) ==
  IF IsStr(ts, i) \/ IsExpr(ts, i) THEN PArgs(ts, i + 1, Append(args, ts[i]))
  ELSE IF IsSym(ts, i, "(|") THEN
    LET p == PPipe(ts, i + 1) IN
    IF p = Bad THEN Bad
    ELSE IF ~IsSym(ts, p[3], "|)") THEN Bad
    ELSE PArgs(ts, p[3] + 1, Append(args, <<"pipe", p[2][1], p[2][2]>>))
  ELSE <<"ok", args, i>>

(* ---------------------------------------------------------------- commands *)
\* does a pipeline contain anything not determined, or (but at the end of a command) an operator which only Text knows
TextOnly == {"show", "read", "write", "store"}
RECURSIVE PipeAny(_), ArgAny(_), OpAny(_)
ArgAny(a) == \/ a = NotHere
             \/ a[1] = "lit" /\ ((\E j \in 1..Len(a[2]) : a[2][j] = "?" \/ \E i \in 1..Len(a[2]) : i # j /\ a[2][i] = a[2][j]) \/ PipeAny(a[3]))
             \/ a[1] = "pv" /\ ((\E j \in 1..Len(a[2]) : a[2][j] = "?" \/ \E i \in 1..Len(a[2]) : i # j /\ a[2][i] = a[2][j]) \/ PipeAny(a[3]))
OpAny(o) == \/ o.op \in TextOnly \cup {"any"}
            \/ "arg" \in DOMAIN o /\ ArgAny(o.arg)
            \/ "args" \in DOMAIN o /\ \E j \in 1..Len(o.args) : ArgAny(o.args[j])
            \/ "branches" \in DOMAIN o /\ \E j \in 1..Len(o.branches) : ArgAny(o.branches[j][2])
PipeAny(p) == \E j \in 1..Len(p) : OpAny(p[j])

(* The command a text stands for:
     <<"empty">>                                        nothing
     <<"bad">>                                          refused, without effect
     <<"any", name>>                                    not determined, which may change what is called name ("" nothing, "?" anything)
     <<"assign", name, e>>   <<"assignp", name, params, pipe>>
     <<"run", in, ops, out>>                            in: [op |-> "read"] or none; out: "show", store, write, or none *)
NoOp == [op |-> ""]
Command(t) ==
  LET l == Lex(t, 1, <<>>) IN
  IF l = Bad THEN Bad ELSE IF l = NotHere THEN <<"any", "?">>
  ELSE LET ts == l[2] IN
  IF ts = <<>> THEN <<"empty">>
  ELSE IF IsStr(ts, 1) /\ IsSym(ts, 2, "=") THEN
    (IF IsStr(ts, 3) \/ IsExpr(ts, 3) THEN
       (IF Len(ts) # 3 THEN Bad
        ELSE LET v == ArgVal(ts[3]) IN
             IF v = NotHere \/ Name(ts[1]) = "?" THEN <<"any", "?">> ELSE <<"assign", Name(ts[1]), v[2]>>)
     ELSE IF IsSym(ts, 3, "(|") THEN
       LET p == PPipe(ts, 4) IN
       IF p = Bad THEN Bad
       ELSE IF ~IsSym(ts, p[3], "|)") \/ p[3] # Len(ts) THEN Bad
       ELSE IF Name(ts[1]) = "?" \/ ArgAny(<<"pv", p[2][1], p[2][2]>>) THEN <<"any", "?">>
       ELSE <<"assignp", Name(ts[1]), p[2][1], p[2][2]>>
     ELSE Bad)
  ELSE LET p == PPipe(ts, 1) IN
       IF p = Bad THEN Bad
       ELSE IF p[3] # Len(ts) + 1 THEN Bad
       ELSE IF p[2][1] # <<>> THEN Bad                      \* only a pipeline in parentheses can have parameters
       ELSE LET ops == p[2][2]
                n == Len(ops)
                last == ops[n]
                out == IF last.op \in {"show", "store", "write"} THEN last ELSE NoOp
                n2 == IF out = NoOp THEN n ELSE n - 1
                in == IF n2 = 0 THEN NoOp ELSE IF ops[1].op = "read" THEN ops[1] ELSE NoOp
                mid == SubSeq(ops, IF in = NoOp THEN 1 ELSE 2, n2) IN
            IF PipeAny(mid) THEN <<"any", IF \A j \in 1..n : OpAny(ops[j]) => (ops[j].op = "show" \/ (ops[j].op = "any" /\ ~ops[j].effect)) THEN "" ELSE "?">>
            ELSE <<"run", in, mid, out>>
=============================================================================
