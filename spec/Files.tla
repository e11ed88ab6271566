------------------------------- MODULE Files -------------------------------
(* What write puts in files and what read takes out of them.

   The content of a file is
     <<"t", codes>>   text, as character codes            <<"p", items>>   pickled items
     <<"u">>          not determined here
   An item is <<"R", row>>, a row given as a tuple; <<"E">>, an Error; <<"N", names, row>>, a row with named columns. *)
EXTENDS Values

NL == 10  CR == 13  TAB == 9  SPACE == 32  QUOTE == 34  APOS == 39  COMMA == 44  BACKSLASH == 92  UNDERSCORE == 95

R(row) == <<"R", row>>
E == <<"E">>
IsE(it) == it[1] = "E"
ErrorText == <<69, 33>>      \* stands for the text of any Error

(* -------------------------------------------------------------- numbers, strings and tuples as text *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)

Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Printable(c) == c >= 32 /\ c # 127 /\ (c < 128 \/ c > 160)
Escaped(c, q) == CASE c = BACKSLASH -> <<BACKSLASH, BACKSLASH>>
                   [] c = q -> <<BACKSLASH, q>>
                   [] c = NL -> <<BACKSLASH, 110>>
                   [] c = CR -> <<BACKSLASH, 114>>
                   [] c = TAB -> <<BACKSLASH, 116>>
                   [] Printable(c) -> <<c>>
                   [] OTHER -> <<BACKSLASH, 120, Hex(c \div 16), Hex(c % 16)>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
RECURSIVE Joined(_, _)
Joined(s, sep) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Joined(Tail(s), sep)
Has(codes, c) == \E k \in 1..Len(codes) : codes[k] = c

StrRepr(codes) == LET q == IF Has(codes, APOS) /\ ~Has(codes, QUOTE) THEN QUOTE ELSE APOS
                  IN <<q>> \o Flat([k \in 1..Len(codes) |-> Escaped(codes[k], q)]) \o <<q>>
RECURSIVE Repr(_)
Repr(v) == CASE Tag(v) = "i" -> IntText(v[2])
             [] Tag(v) = "s" -> StrRepr(v[2])
             [] Tag(v) = "n" -> <<78, 111, 110, 101>>
             [] Tag(v) = "b" -> IF v[2] THEN <<84, 114, 117, 101>> ELSE <<70, 97, 108, 115, 101>>
             [] Tag(v) = "l" -> <<91>> \o Joined([k \in 1..Len(v[2]) |-> Repr(v[2][k])], <<COMMA, SPACE>>) \o <<93>>
             [] Tag(v) = "t" -> <<40>> \o Joined([k \in 1..Len(v[2]) |-> Repr(v[2][k])], <<COMMA, SPACE>>)
                                \o (IF Len(v[2]) = 1 THEN <<COMMA, 41>> ELSE <<41>>)
Str(v) == IF Tag(v) = "s" THEN v[2] ELSE Repr(v)

(* -------------------------------------------------------------- writing *)
(* A number is written as it is, anything else quoted. *)
CsvField(v) == IF Tag(v) \in {"i", "b"} THEN Str(v)
               ELSE LET s == IF Tag(v) = "n" THEN <<>> ELSE Str(v)
                    IN <<QUOTE>> \o Flat([k \in 1..Len(s) |-> IF s[k] = QUOTE THEN <<QUOTE, QUOTE>> ELSE <<s[k]>>]) \o <<QUOTE>>
DelimitedLine(row, delim) == Joined([k \in 1..Len(row[2]) |-> CsvField(row[2][k])], <<delim>>)
DefaultLine(row) == IF Len(row[2]) = 1 THEN Str(row[2][1]) ELSE Repr(row)

(* A format is a sequence of <<"t", codes>> and <<"a", k>>, the k-th value of the row. *)
Formattable(parts, row) == \A j \in 1..Len(parts) : parts[j][1] = "t" \/ parts[j][2] <= Len(row[2])
FormatLine(parts, row) == Flat([j \in 1..Len(parts) |-> IF parts[j][1] = "t" THEN parts[j][2] ELSE Str(row[2][parts[j][2]])])

(* Errors are written as they are, whatever the format. *)
Lines(items, Line(_), Can(_)) ==
  Flat([k \in 1..Len(items) |-> IF IsE(items[k]) THEN ErrorText \o <<NL>>
                                ELSE IF Can(items[k]) THEN Line(items[k][2]) \o <<NL>> ELSE <<>>])
AnyItem(it) == TRUE

Text(fmt, items) ==
  CASE fmt[1] = "default" -> Lines(items, DefaultLine, AnyItem)
    [] fmt[1] = "csv" -> Lines(items, LAMBDA r : DelimitedLine(r, COMMA), AnyItem)
    [] fmt[1] = "tsv" -> Lines(items, LAMBDA r : DelimitedLine(r, TAB), AnyItem)
    [] fmt[1] = "format" -> Lines(items, LAMBDA r : FormatLine(fmt[2], r), LAMBDA it : Formattable(fmt[2], it[2]))

(* the content of a file with content old (<<"t", <<>>>> when it is new) *)
Written(fmt, append, items, old) ==
  LET base == IF append THEN old ELSE <<"t", <<>>>> IN
  IF base[1] = "u" THEN <<"u">>
  ELSE IF fmt[1] = "pickle"
       THEN IF base[1] = "p" THEN <<"p", base[2] \o items>>
            ELSE IF base[2] = <<>> THEN (IF items = <<>> THEN base ELSE <<"p", items>>) ELSE <<"u">>
       ELSE IF base[1] = "t" THEN <<"t", base[2] \o Text(fmt, items)>>
            ELSE IF Text(fmt, items) = <<>> THEN base ELSE <<"u">>

(* What write passes on: everything, with an Error before each row that could not be formatted. *)
PassedOn(fmt, items) ==
  Flat([k \in 1..Len(items) |-> IF fmt[1] = "format" /\ ~IsE(items[k]) /\ ~Formattable(fmt[2], items[k][2])
                                THEN <<E, items[k]>>
                                ELSE IF IsE(items[k]) THEN <<>>              \* written, not passed on
                                ELSE <<items[k]>>])

(* -------------------------------------------------------------- reading *)
(* lines of text, ended by \n, \r or \r\n *)
RECURSIVE TextLines(_, _, _, _)
TextLines(s, k, line, lines) ==
  IF k > Len(s) THEN IF line = <<>> THEN lines ELSE Append(lines, line)
  ELSE IF s[k] = NL THEN TextLines(s, k + 1, <<>>, Append(lines, line))
  ELSE IF s[k] = CR THEN TextLines(s, IF k < Len(s) /\ s[k + 1] = NL THEN k + 2 ELSE k + 1, <<>>, Append(lines, line))
  ELSE TextLines(s, k + 1, Append(line, s[k]), lines)

(* Records of fields. state: "start" of a record, "field" about to start, "in" a field, "quoted", "quote" after a
   quote in a quoted field. *)
RECURSIVE Records(_, _, _, _, _, _, _)
Records(s, delim, k, state, field, fields, recs) ==
  LET c == s[k]
      next == IF c = CR /\ k < Len(s) /\ s[k + 1] = NL THEN k + 2 ELSE k + 1
      Rec == Append(recs, Append(fields, field)) IN
  IF k > Len(s)
  THEN IF state = "start" THEN recs ELSE Append(recs, Append(fields, field))
  ELSE CASE state = "quoted" ->
              IF c = QUOTE THEN Records(s, delim, k + 1, "quote", field, fields, recs)
              ELSE Records(s, delim, k + 1, "quoted", Append(field, c), fields, recs)
         [] state = "start" /\ c \in {NL, CR} -> Records(s, delim, next, "start", <<>>, <<>>, Append(recs, <<>>))
         [] state # "start" /\ c \in {NL, CR} -> Records(s, delim, next, "start", <<>>, <<>>, Rec)
         [] c = delim -> Records(s, delim, k + 1, "field", <<>>, Append(fields, field), recs)
         [] c = QUOTE /\ state \in {"start", "field"} -> Records(s, delim, k + 1, "quoted", <<>>, fields, recs)
         [] c = QUOTE /\ state = "quote" -> Records(s, delim, k + 1, "quoted", Append(field, c), fields, recs)
         [] OTHER -> Records(s, delim, k + 1, "in", Append(field, c), fields, recs)
RecordsOf(s, delim) == Records(s, delim, 1, "start", <<>>, <<>>, <<>>)

(* Column headings *)
IsDigit(c) == c \in 48..57
IsLetter(c) == c \in 65..90 \/ c \in 97..122 \/ c = UNDERSCORE
IsWord(codes) == codes # <<>> /\ ~IsDigit(codes[1]) /\ \A k \in 1..Len(codes) : IsDigit(codes[k]) \/ IsLetter(codes[k]) \/ codes[k] = 233
Keywords == {<<105, 102>>, <<105, 110>>, <<105, 115>>, <<97, 115>>, <<111, 114>>,
             <<78, 111, 110, 101>>, <<84, 114, 117, 101>>, <<70, 97, 108, 115, 101>>}
White == {SPACE, TAB, NL, CR}
RECURSIVE Stripped(_)
Stripped(s) == IF s = <<>> THEN s
               ELSE IF Head(s) \in White THEN Stripped(Tail(s))
               ELSE IF s[Len(s)] \in White THEN Stripped(SubSeq(s, 1, Len(s) - 1)) ELSE s
ColumnName(f) == LET s == Stripped(f) IN
  IF IsWord(s) THEN s ELSE [k \in 1..Len(s) |-> IF IsDigit(s[k]) \/ IsLetter(s[k]) THEN s[k] ELSE UNDERSCORE]
ValidNames(ns) == /\ \A k \in 1..Len(ns) : IsWord(ns[k]) /\ ns[k] \notin Keywords /\ ns[k][1] # UNDERSCORE
                  /\ \A j, k \in 1..Len(ns) : j # k => ns[j] # ns[k]

StrV(codes) == <<"s", codes>>
Strings(fields) == [k \in 1..Len(fields) |-> StrV(fields[k])]
LABEL == <<76, 65, 66, 69, 76>>
Padded(vs, n) == IF Len(vs) >= n THEN vs ELSE vs \o [k \in 1..(n - Len(vs)) |-> None]

(* opts: [fmt, headings, skip, label]; label: the name of the file *)
FromRecords(recs, opts, label) ==
  LET lab == IF opts.label THEN <<StrV(label)>> ELSE <<>>
      names == (IF opts.label THEN <<LABEL>> ELSE <<>>) \o [k \in 1..Len(recs[1]) |-> ColumnName(recs[1][k])]
      Row(rec) == lab \o Strings(rec) IN
  IF (opts.headings \/ opts.skip) /\ recs # <<>>
  THEN LET rest == Tail(recs) IN
       IF opts.skip THEN [k \in 1..Len(rest) |-> R(Tup(Row(rest[k])))]
       ELSE IF ~ValidNames(names) THEN <<E>> \o [k \in 1..Len(rest) |-> R(Tup(Row(rest[k])))]
       ELSE [k \in 1..Len(rest) |-> IF Len(Row(rest[k])) > Len(names) THEN E
                                    ELSE <<"N", names, Tup(Padded(Row(rest[k]), Len(names)))>>]
  ELSE [k \in 1..Len(recs) |-> R(Tup(Row(recs[k])))]

(* What reading a file with this content gives; <<"U">> when it is not determined. *)
ReadFile(content, opts, label) ==
  CASE content[1] = "u" -> <<"U">>
    [] content = <<"t", <<>>>> -> <<"items", <<>>>>
    [] opts.fmt = "pickle" ->
         IF content[1] = "t" THEN <<"U">>
         ELSE <<"items", [k \in 1..Len(content[2]) |->
                 LET it == content[2][k]
                     row == IF IsE(it) THEN <<StrV(ErrorText)>> ELSE it[2][2] IN
                 IF opts.label THEN R(Tup(<<StrV(label)>> \o row))
                 ELSE IF IsE(it) THEN R(Tup(row)) ELSE it]>>
    [] content[1] = "p" -> <<"U">>
    \* the fields of an Error are not determined
    [] opts.fmt # "default" /\ \E k \in 1..(Len(content[2]) - 1) : SubSeq(content[2], k, k + 1) = ErrorText -> <<"U">>
    [] opts.fmt = "default" ->
         LET ls == TextLines(content[2], 1, <<>>, <<>>) IN
         <<"items", [k \in 1..Len(ls) |-> R(Tup((IF opts.label THEN <<StrV(label)>> ELSE <<>>) \o <<StrV(ls[k])>>))]>>
    [] OTHER -> <<"items", FromRecords(RecordsOf(content[2], IF opts.fmt = "csv" THEN COMMA ELSE TAB), opts, label)>>
=============================================================================
