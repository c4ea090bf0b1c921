-------------------------------- MODULE Big -----------------------------------
(* Integers of any size: [s |-> sign, d |-> digits to the base 1000, lowest     *)
(* first, no leading zeros]; zero is [s |-> 1, d |-> <<>>].                     *)
EXTENDS Integers, Sequences, TLC
LOCAL B == 1000
LOCAL Dig(d, i) == IF i \in DOMAIN d THEN d[i] ELSE 0
LOCAL MaxI(a, b) == IF a >= b THEN a ELSE b
RECURSIVE Trim(_)
Trim(d) == IF d = <<>> THEN d ELSE IF d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
RECURSIVE Carry(_, _, _)            \* digits of any size -> digits
LOCAL Carry(d, i, c) ==
  IF i > Len(d) THEN (IF c = 0 THEN <<>> ELSE <<c % B>> \o Carry(d, i + 1, c \div B))
  ELSE LET t == d[i] + c IN <<t % B>> \o Carry(d, i + 1, t \div B)
LOCAL AddD(x, y) == Trim(Carry([i \in 1 .. MaxI(Len(x), Len(y)) |-> Dig(x, i) + Dig(y, i)], 1, 0))
RECURSIVE Borrow(_, _, _)
LOCAL Borrow(d, i, c) == IF i > Len(d) THEN <<>> ELSE LET t == d[i] - c IN IF t < 0 THEN <<t + B>> \o Borrow(d, i + 1, 1) ELSE <<t>> \o Borrow(d, i + 1, 0)
LOCAL SubD(x, y) == Trim(Borrow([i \in 1 .. Len(x) |-> x[i] - Dig(y, i)], 1, 0))      \* x >= y
RECURSIVE SumTo(_, _, _, _)
LOCAL SumTo(x, y, k, i) == IF i > Len(x) THEN 0 ELSE (IF k + 1 - i \in DOMAIN y THEN x[i] * y[k + 1 - i] ELSE 0) + SumTo(x, y, k, i + 1)
LOCAL MulD(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE Trim(Carry(TLCEval([k \in 1 .. Len(x) + Len(y) |-> SumTo(x, y, k, 1)]), 1, 0))
RECURSIVE LessAt(_, _, _)
LOCAL LessAt(x, y, i) == IF i = 0 THEN FALSE ELSE IF x[i] = y[i] THEN LessAt(x, y, i - 1) ELSE x[i] < y[i]
LOCAL LessD(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LessAt(x, y, Len(x))

Num(s, d) == LET t == Trim(d) IN [s |-> IF t = <<>> THEN 1 ELSE s, d |-> t]
RECURSIVE Digits(_)
LOCAL Digits(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Digits(n \div B)
Of(n) == IF n < 0 THEN Num(-1, Digits(-n)) ELSE Num(1, Digits(n))
Neg(x) == Num(-x.s, x.d)
Abs(x) == Num(1, x.d)
Plus(x, y) == TLCEval(IF x.s = y.s THEN Num(x.s, AddD(x.d, y.d))
              ELSE IF LessD(x.d, y.d) THEN Num(y.s, SubD(y.d, x.d)) ELSE Num(x.s, SubD(x.d, y.d)))
Minus(x, y) == Plus(x, Neg(y))
Times(x, y) == TLCEval(Num(x.s * y.s, MulD(x.d, y.d)))
Less(x, y) == IF x.s # y.s THEN x.s < y.s ELSE IF x.s = 1 THEN LessD(x.d, y.d) ELSE LessD(y.d, x.d)
Shift(x, n) == Num(x.s, [i \in 1 .. n |-> 0] \o x.d)        \* times 1000^n
RECURSIVE Value(_)
LOCAL Value(d) == IF d = <<>> THEN 0 ELSE d[1] + B * Value(SubSeq(d, 2, Len(d)))
Small(x) == x.s * Value(x.d)
==============================================================================
