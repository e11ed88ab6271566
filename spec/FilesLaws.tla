----------------------------- MODULE FilesLaws -----------------------------
(* What is written reads back, for all sequences of up to MaxRows rows of up to MaxCols values over Alphabet, in each
   format, also when the rows are written in two parts. *)
EXTENDS Files
CONSTANTS MaxRows, MaxCols, MaxStr, Alphabet
VARIABLES rows, fmt
vars == <<rows, fmt>>

Elems == {StrV(s) : s \in UNION {[1..n -> Alphabet] : n \in 0..MaxStr}} \cup {None, I(0), I(-12)}
Rows == {R(Tup(s)) : s \in UNION {[1..n -> Elems] : n \in 0..MaxCols}}
Init == rows = <<>> /\ fmt \in {"default", "csv", "tsv", "pickle"}
Next == /\ Len(rows) < MaxRows /\ \E r \in Rows : rows' = Append(rows, r)
        /\ UNCHANGED fmt
Spec == Init /\ [][Next]_vars

Opts(f, h, s, l) == [fmt |-> f, headings |-> h, skip |-> s, label |-> l]
Plain == Opts(fmt, FALSE, FALSE, FALSE)
Converted(v) == IF fmt = "pickle" THEN v ELSE IF Tag(v) = "n" THEN StrV(<<>>) ELSE StrV(Str(v))
BackRow(it) == IF fmt = "default" THEN R(Tup(<<StrV(DefaultLine(it[2]))>>))
               ELSE R(Tup([k \in 1..Len(it[2][2]) |-> Converted(it[2][2][k])]))
OneLine(it) == \A k \in 1..Len(it[2][2]) : Tag(it[2][2][k]) # "s" \/ (~Has(it[2][2][k][2], NL) /\ ~Has(it[2][2][k][2], CR))
Applies == fmt # "default" \/ \A k \in 1..Len(rows) : OneLine(rows[k])
Back == [k \in 1..Len(rows) |-> BackRow(rows[k])]
New == <<"t", <<>>>>
All == Written(<<fmt>>, FALSE, rows, New)

RoundTrip == Applies => ReadFile(All, Plain, <<>>) = <<"items", Back>>
(* in two parts: the second appended *)
Parts == \A n \in 0..Len(rows) :
  Written(<<fmt>>, TRUE, SubSeq(rows, n + 1, Len(rows)), Written(<<fmt>>, FALSE, SubSeq(rows, 1, n), New)) = All
Replaces == Written(<<fmt>>, FALSE, rows, <<"t", <<65>>>>) = All
(* With -h or -s, every record but the first gives one item. *)
OnePerRecord == fmt \in {"csv", "tsv"} => \A h, l \in BOOLEAN :
  LET r == ReadFile(All, Opts(fmt, h, ~h, l), <<70>>) IN
  /\ r[1] = "items"
  /\ \/ Len(r[2]) = MaxN(0, Len(rows) - 1)
     \/ h /\ Len(r[2]) = Len(rows) /\ Len(rows) > 0 /\ IsE(r[2][1])
(* every line of any text is read, without its end *)
=============================================================================
