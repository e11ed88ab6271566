------------------------------- MODULE Complete -------------------------------
(* Completion of a partially typed command: which candidates are offered, and what the line then denotes.

   Texts are sequences of character codes. A line is what precedes the token at its end, and the token.
   A candidate is a text, which replaces the last `back` characters of the line and is followed by nothing.
   Files: entries [path |-> sequence of names, dir |-> BOOLEAN]; home and cwd are paths.                    *)
EXTENDS Args

SPACE == 32  DQ == 34  SQ == 39  SLASH == 47  ESC == 92  TILDE == 126
Blank == {9, 10, 13, 32}
ShellEnds == Blank \cup {40, 41, 124, 60, 62}                  \* ( ) | < >
Ends == ShellEnds \cup {61, 35, 44, 58}                        \* = # , : end the arguments of most operators only
Wild == {42, 63, 91}                                            \* * ? [

Pre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* Reading a token: the characters it denotes, the quote open at its end (0: none), which characters are bare,
   neither quoted nor escaped; ok: no escape without a character                                               *)
RECURSIVE Read(_, _, _)
Read(t, i, r) ==
  IF i > Len(t) THEN r
  ELSE LET c == t[i] next == IF i < Len(t) THEN t[i + 1] ELSE 0
           Take(x) == [r EXCEPT !.s = Append(@, x)] IN
  IF r.q = 0 /\ c \in {DQ, SQ} THEN Read(t, i + 1, [r EXCEPT !.q = c])
  ELSE IF c = r.q THEN Read(t, i + 1, [r EXCEPT !.q = 0])
  ELSE IF r.q = 0 /\ c = ESC THEN (IF i = Len(t) THEN [r EXCEPT !.ok = FALSE] ELSE Read(t, i + 2, Take(next)))
  ELSE IF r.q = DQ /\ c = ESC /\ next \in {DQ, ESC} THEN Read(t, i + 2, Take(next))
  ELSE IF r.q = 0 THEN Read(t, i + 1, [Take(c) EXCEPT !.bare = @ \cup {c}])
  ELSE Read(t, i + 1, Take(c))
Reading(t) == Read(t, 1, [s |-> <<>>, q |-> 0, bare |-> {}, ok |-> TRUE])

RECURSIVE Parts(_, _)
Parts(s, name) == IF s = <<>> THEN <<name>>
                  ELSE IF Head(s) = SLASH THEN <<name>> \o Parts(Tail(s), <<>>) ELSE Parts(Tail(s), Append(name, Head(s)))
RECURSIVE Walk(_, _)
Walk(at, names) == IF names = <<>> THEN at
                   ELSE IF Head(names) \in {<<>>, <<46>>} THEN Walk(at, Tail(names))
                   ELSE IF Head(names) = <<46, 46>> THEN Walk(IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1), Tail(names))
                   ELSE Walk(Append(at, Head(names)), Tail(names))
Last(s) == s[Len(s)]
Butlast(s) == SubSeq(s, 1, Len(s) - 1)
\* the directory which the text before the last slash denotes. Home: whether the token starts with a bare ~
DirOf(fs, s, home) ==
  LET ps == Butlast(Parts(s, <<>>)) IN
  IF ps = <<>> THEN fs.cwd
  ELSE IF home THEN Walk(fs.home, Tail(ps))
  ELSE IF Head(ps) = <<>> THEN Walk(<<>>, Tail(ps))
  ELSE Walk(fs.cwd, ps)
Tilded(tok) == tok # <<>> /\ tok[1] = TILDE
Matching(fs, tok) ==        \* the entries which can continue a token
  LET s == Reading(tok).s d == DirOf(fs, s, Tilded(tok)) p == Last(Parts(s, <<>>)) IN
  {j \in 1..Len(fs.entries) : Butlast(fs.entries[j].path) = d /\ Pre(p, Last(fs.entries[j].path))}

\* What the token is once a candidate is taken
Taken(tok, c) == SubSeq(tok, 1, Len(tok) - c.back) \o c.text
\* Does it then denote this entry? A directory is left open, for what is in it; another file is complete
Denotes(fs, ends, tok, c, j) ==
  LET e == fs.entries[j] t == Taken(tok, c) IN
  /\ Len(t) > Len(tok) - c.back /\ t # <<>>
  /\ LET w == Butlast(t) r == Reading(IF e.dir THEN t ELSE w) IN
     /\ r.ok /\ r.bare \cap (Wild \cup ends) = {} /\ Tilded(t) = Tilded(tok) /\ t[1] \notin {35, 44, 58, 61}
     /\ IF e.dir THEN Last(t) = SLASH ELSE Last(t) = SPACE /\ r.q = 0
     /\ LET s == IF e.dir THEN Butlast(r.s) ELSE r.s IN
        /\ DirOf(fs, s, Tilded(t)) = Butlast(e.path)
        /\ Last(Parts(s, <<>>)) = Last(e.path)

\* verdicts: "" if the candidates are right
FileVerdict(fs, ends, tok, cands) ==
  LET m == Matching(fs, tok) IN
  IF \E j \in m : ~\E k \in 1..Len(cands) : Denotes(fs, ends, tok, cands[k], j) THEN "a file is not offered, or what is offered does not denote it"
  ELSE IF \E k \in 1..Len(cands) : ~\E j \in m : Denotes(fs, ends, tok, cands[k], j) THEN "what is offered is not a file which continues the text"
  ELSE IF Len(cands) # Cardinality(m) THEN "a file is offered twice"
  ELSE ""

(* Words: operators, flags, programs, topics, users *)
WordVerdict(words, end, tok, cands) ==
  LET want == {Drop(w, Len(tok)) \o end : w \in {x \in words : Pre(tok, x)}}
      got == {cands[k].text : k \in 1..Len(cands)} IN
  IF \E k \in 1..Len(cands) : cands[k].back # 0 THEN "what was typed is replaced"
  ELSE IF want \ got # {} THEN "not all continuations are offered"
  ELSE IF got \ want # {} THEN "what is offered is not a continuation"
  ELSE IF Len(cands) # Cardinality(got) THEN "offered twice"
  ELSE ""

CodeOf == [c \in {SubSeq(" !#$%&'()*+,-./0123456789:;<=>?@_abcdefghijklmnopqrstuvwxyz", i, i) : i \in 1..59} |->
             LET A == " !#$%&'()*+,-./0123456789:;<=>?@_abcdefghijklmnopqrstuvwxyz"
                 k == CHOOSE i \in 1..59 : SubSeq(A, i, i) = c IN
             IF k = 1 THEN 32 ELSE IF k = 2 THEN 33 ELSE IF k <= 32 THEN k + 32 ELSE IF k = 33 THEN 95 ELSE k + 63]
Codes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
Operators == {"args", "assign", "bash", "bg", "case", "cast", "cd", "difference", "dirs", "download", "edit", "env", "exit", "expand", "fg",
              "filter", "fork", "gen", "head", "help", "history", "import", "intersect", "jobs", "join", "load", "ls", "map", "popd", "ps",
              "pushd", "pwd", "read", "red", "remote", "reverse", "run", "select", "sort", "sql", "squish", "store", "sudo", "tail",
              "timer", "trace", "union", "unique", "upload", "version", "window", "write", "ws"}
\* external programs, and operators whose arguments are read like theirs
ShellOps == {"bash", "ls", "read", "prog"}
Topics == {"color", "command", "configuration", "function", "marcel", "namespace", "object", "operator", "overview", "pipeline", "prompt"}
OperatorCodes == {Codes(w) : w \in Operators}
TopicCodes == OperatorCodes \cup {Codes(w) : w \in Topics}
FlagCodes == [op \in DOMAIN Declared |->
  {Codes(w) : w \in UNION {{Declared[op].flags[j].short, Declared[op].flags[j].long} : j \in 1..Len(Declared[op].flags)} \ {""}}]

(* A case: kind, tok, cands, and, where they matter, op (of a flag), programs, users; fails: the completer raised something;
   changed: the session was changed by completing                                                                    *)
Verdict(fs, c) ==
  IF c.fails THEN "completion fails"
  ELSE IF c.changed THEN "completion changes the session"
  ELSE CASE c.kind = "file" -> FileVerdict(fs, IF c.op \in ShellOps THEN ShellEnds ELSE Ends, c.tok, c.cands)
         [] c.kind = "op" -> IF \E w \in OperatorCodes : Pre(c.tok, w) THEN WordVerdict(OperatorCodes, <<SPACE>>, c.tok, c.cands)
                             ELSE WordVerdict(fs.programs, <<SPACE>>, c.tok, c.cands)
         [] c.kind = "flag" -> WordVerdict(FlagCodes[c.op], <<SPACE>>, c.tok, c.cands)
         [] c.kind = "help" -> WordVerdict(TopicCodes, <<>>, c.tok, c.cands)
         [] c.kind = "user" -> WordVerdict(fs.users, <<SLASH>>, Tail(c.tok), c.cands)
         [] c.kind = "any" -> ""
=============================================================================
