------------------------------ MODULE TextLaws ------------------------------
(* Laws of Text, for all texts over an alphabet of the characters with a meaning, up to a length:
     every string can be written in (up to) three ways, all of which mean that string;
     what follows # has no meaning; blanks around a text have none; no text is both refused and given a meaning;
     an expression in parentheses, whatever parentheses its strings contain, is one token. *)
EXTENDS Text
CONSTANT N
VARIABLE t
Alphabet == {97, SPACE, SQ, DQ, ESC, OPEN, CLOSE, BAR, HASH, EQUALS, GREATER, DOLLAR, COMMA}
NoWords == <<>>
NoExprs == <<>>

RawQuote(s) == [j \in 1..2 * Len(s) |-> IF j % 2 = 1 THEN ESC ELSE s[j \div 2]]
RECURSIVE DQuote(_)
DQuote(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in {DQ, ESC} THEN <<ESC, s[1]>> ELSE <<s[1]>>) \o DQuote(Tail(s))
Quoted(s) == {<<DQ>> \o DQuote(s) \o <<DQ>>}
             \cup (IF s = <<>> THEN {} ELSE {RawQuote(s)})
             \cup (IF SQ \in {s[j] : j \in 1..Len(s)} THEN {} ELSE {<<SQ>> \o s \o <<SQ>>})

OneString(x, s) == x = <<"toks", <<<<"str", s, TRUE>>>>>>
Sentence(s) == {<<97, SPACE>> \o q : q \in Quoted(s)}
QuoteLaw == \A q \in Quoted(t) : OneString(Lex(q, 1, <<>>), t)
\* two parts next to each other are one string
JoinLaw == \A i \in 1..Len(t) : \A a \in Quoted(SubSeq(t, 1, i)) : \A b \in Quoted(SubSeq(t, i + 1, Len(t))) :
              OneString(Lex(a \o b, 1, <<>>), t)
BlankLaw == Lex(<<SPACE, TAB>> \o t \o <<SPACE>>, 1, <<>>) = Lex(t, 1, <<>>) \/ (t # <<>> /\ t[Len(t)] = ESC) \/ Lex(t, 1, <<>>) = Bad
CommentLaw == LET l == Lex(t, 1, <<>>) IN l # Bad /\ (t = <<>> \/ t[Len(t)] # ESC) => Lex(t \o <<SPACE, HASH, OPEN, SQ, BAR>>, 1, <<>>) = l
\* a string in an expression hides what it contains
PyLaw == LET src == <<DQ>> \o DQuote(t) \o <<DQ>> IN
         Lex(<<OPEN>> \o src \o <<CLOSE>>, 1, <<>>) = <<"toks", <<<<"expr", src>>>>>>
         \/ SubSeq(src, 1, 3) = <<DQ, DQ, DQ>>
Total == Command(t)[1] \in {"empty", "bad", "any", "assign", "assignp", "run"}

Init == t = <<>>
Next == Len(t) < N /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t
=============================================================================
