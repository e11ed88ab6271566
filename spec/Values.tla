------------------------------ MODULE Values ------------------------------
(* The values flowing through marcel pipelines, their equality, order and arithmetic.

   A value is a tagged tuple:
     <<"i", n>>      integer                 <<"s", <<codes>>>>  string, as a sequence of character codes
     <<"n">>         None                    <<"b", TRUE>>       boolean
     <<"t", <<..>>>> tuple                   <<"l", <<..>>>>     list
   Evaluation of an expression may also give
     <<"X", name>>   the evaluation raised the exception called name
     <<"U">>         outside what this specification determines                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<"n">>
I(n) == <<"i", n>>
B(b) == <<"b", b>>
Tup(s) == <<"t", s>>
Lst(s) == <<"l", s>>
X(name) == <<"X", name>>
U == <<"U">>

Tag(v) == v[1]
IsExc(v) == Tag(v) \in {"X", "U"}
IsRowTag(v) == Tag(v) \in {"t", "l"}

(* What is sent to the next operator when v is sent: tuples and lists are rows, anything else becomes a
   row of one. *)
AsRow(v) == IF IsRowTag(v) THEN v ELSE Tup(<<v>>)
(* A row of one stands for its only element. *)
UnwrapRow(r) == IF Len(r[2]) = 1 THEN r[2][1] ELSE r

Truthy(v) == CASE Tag(v) = "i" -> v[2] # 0
               [] Tag(v) = "n" -> FALSE
               [] Tag(v) = "b" -> v[2]
               [] OTHER -> Len(v[2]) > 0

RECURSIVE Hashable(_)
Hashable(v) == CASE Tag(v) = "l" -> FALSE
                 [] Tag(v) = "t" -> \A k \in 1..Len(v[2]) : Hashable(v[2][k])
                 [] OTHER -> TRUE

RECURSIVE HasBool(_)
HasBool(v) == CASE Tag(v) = "b" -> TRUE
                [] Tag(v) \in {"t", "l"} -> \E k \in 1..Len(v[2]) : HasBool(v[2][k])
                [] OTHER -> FALSE

(* -------- order. Cmp gives -1, 0, 1, or 2 when the values cannot be compared *)
CmpInt(a, b) == IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1

RECURSIVE CmpCodes(_, _, _)
CmpCodes(s, t, k) ==
  IF k > Len(s) THEN (IF k > Len(t) THEN 0 ELSE -1)
  ELSE IF k > Len(t) THEN 1
  ELSE IF s[k] = t[k] THEN CmpCodes(s, t, k + 1)
  ELSE CmpInt(s[k], t[k])

RECURSIVE Cmp(_, _), CmpSeq(_, _, _)
Cmp(a, b) ==
  IF Tag(a) # Tag(b) THEN 2
  ELSE CASE Tag(a) = "i" -> CmpInt(a[2], b[2])
         [] Tag(a) = "s" -> CmpCodes(a[2], b[2], 1)
         [] Tag(a) \in {"t", "l"} -> CmpSeq(a[2], b[2], 1)
         [] OTHER -> 2
(* sequences: the first unequal pair decides *)
CmpSeq(s, t, k) ==
  IF k > Len(s) THEN (IF k > Len(t) THEN 0 ELSE -1)
  ELSE IF k > Len(t) THEN 1
  ELSE IF s[k] = t[k] THEN CmpSeq(s, t, k + 1)
  ELSE Cmp(s[k], t[k])

(* -------- arithmetic *)
Add(a, b) ==
  IF IsExc(a) THEN a ELSE IF IsExc(b) THEN b
  ELSE IF Tag(a) = "b" \/ Tag(b) = "b" THEN U
  ELSE IF Tag(a) # Tag(b) THEN X("TypeError")
  ELSE CASE Tag(a) = "i" -> I(a[2] + b[2])
         [] Tag(a) \in {"s", "t", "l"} -> <<Tag(a), a[2] \o b[2]>>
         [] OTHER -> X("TypeError")

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN <<>> ELSE s \o Rep(s, n - 1)

Mul(a, b) ==
  IF IsExc(a) THEN a ELSE IF IsExc(b) THEN b
  ELSE IF Tag(a) = "b" \/ Tag(b) = "b" THEN U
  ELSE IF Tag(a) = "i" /\ Tag(b) = "i" THEN I(a[2] * b[2])
  ELSE IF Tag(a) = "i" /\ Tag(b) \in {"s", "t", "l"} THEN <<Tag(b), Rep(b[2], a[2])>>
  ELSE IF Tag(b) = "i" /\ Tag(a) \in {"s", "t", "l"} THEN <<Tag(a), Rep(a[2], b[2])>>
  ELSE X("TypeError")

(* floor modulo / division as in Python; divisors are positive or zero in the programs considered *)
Mod(a, b) ==
  IF IsExc(a) THEN a ELSE IF IsExc(b) THEN b
  ELSE IF Tag(a) = "i" /\ Tag(b) = "i"
       THEN IF b[2] = 0 THEN X("ZeroDivisionError") ELSE IF b[2] < 0 THEN U ELSE I(a[2] % b[2])
  ELSE IF Tag(a) \in {"b", "s"} \/ Tag(b) = "b" THEN U
  ELSE X("TypeError")

Div(a, b) ==
  IF IsExc(a) THEN a ELSE IF IsExc(b) THEN b
  ELSE IF Tag(a) = "i" /\ Tag(b) = "i"
       THEN IF b[2] = 0 THEN X("ZeroDivisionError") ELSE IF b[2] < 0 THEN U ELSE I(a[2] \div b[2])
  ELSE IF Tag(a) = "b" \/ Tag(b) = "b" THEN U
  ELSE X("TypeError")

Eq(a, b) == IF IsExc(a) THEN a ELSE IF IsExc(b) THEN b
            ELSE IF HasBool(a) \/ HasBool(b) THEN U ELSE B(a = b)

Less(a, b) == IF IsExc(a) THEN a ELSE IF IsExc(b) THEN b
              ELSE IF HasBool(a) \/ HasBool(b) THEN U
              ELSE LET c == Cmp(a, b) IN IF c = 2 THEN X("TypeError") ELSE B(c = -1)

MaxV(a, b) == LET l == Less(a, b) IN IF IsExc(l) THEN l ELSE IF l[2] THEN b ELSE a
MinV(a, b) == LET l == Less(b, a) IN IF IsExc(l) THEN l ELSE IF l[2] THEN b ELSE a

(* -------- stable sort. Keyed sequences <<key, payload>>. *)
AllComparable(keys) == \A a, b \in 1..Len(keys) : Cmp(keys[a], keys[b]) # 2

RECURSIVE InsertKeyed(_, _)
InsertKeyed(s, kv) ==      \* s is sorted; kv goes after all elements with a key not greater than its own
  IF s = <<>> THEN <<kv>>
  ELSE IF Cmp(kv[1], s[Len(s)][1]) = -1
       THEN Append(InsertKeyed(SubSeq(s, 1, Len(s) - 1), kv), s[Len(s)])
       ELSE Append(s, kv)
RECURSIVE SortKeyed(_)
SortKeyed(s) == IF s = <<>> THEN <<>> ELSE InsertKeyed(SortKeyed(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

(* -------- sequences *)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
MinN(a, b) == IF a < b THEN a ELSE b
MaxN(a, b) == IF a > b THEN a ELSE b
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
IndexOf(s, x) == IF \E k \in 1..Len(s) : s[k] = x
                 THEN CHOOSE k \in 1..Len(s) : s[k] = x /\ \A j \in 1..(k - 1) : s[j] # x
                 ELSE 0
RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
=============================================================================
