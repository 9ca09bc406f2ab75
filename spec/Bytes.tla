-------------------------------- MODULE Bytes --------------------------------
(* Text as sequences of bytes, and 64-bit integers as four 16-bit limbs, most significant first. *)
EXTENDS Integers, Sequences
LOCAL Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LOCAL Code == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |-> CHOOSE i \in 32..126 : SubSeq(Printable, i - 31, i - 31) = c]
B(s) == [i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]]
Rep(b, n) == [i \in 1..n |-> b]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))
RECURSIVE Digits(_)
\* a natural number below 2^31 in decimal
Digits(n) == (IF n >= 10 THEN Digits(n \div 10) ELSE <<>>) \o <<48 + (n % 10)>>

F == 65535
Zero == <<0, 0, 0, 0>>
Not(v) == [i \in 1..4 |-> F - v[i]]
RECURSIVE Inc(_, _)
Inc(v, i) == IF i = 0 THEN v ELSE IF v[i] = F THEN Inc([v EXCEPT ![i] = 0], i - 1) ELSE [v EXCEPT ![i] = @ + 1]
Negate(v) == Inc(Not(v), 4)
Negative(v) == v[1] >= 32768
\* keep n bytes; fill up with the sign or with zeros
Cut(v, n) == CASE n = 8 -> v [] n = 4 -> <<0, 0, v[3], v[4]>> [] n = 2 -> <<0, 0, 0, v[4]>> [] n = 1 -> <<0, 0, 0, v[4] % 256>>
Signed(v, n) ==
  CASE n = 8 -> v
    [] n = 4 -> IF v[3] >= 32768 THEN <<F, F, v[3], v[4]>> ELSE Cut(v, 4)
    [] n = 2 -> IF v[4] >= 32768 THEN <<F, F, F, v[4]>> ELSE Cut(v, 2)
    [] n = 1 -> IF v[4] % 256 >= 128 THEN <<F, F, F, 65280 + (v[4] % 256)>> ELSE Cut(v, 1)
\* v divided by a small number: the quotient's limbs and the remainder
Div(v, d) ==
  LET a == v[1]
      b == (a % d) * 65536 + v[2]
      c == (b % d) * 65536 + v[3]
      e == (c % d) * 65536 + v[4]
  IN <<<<a \div d, b \div d, c \div d, e \div d>>, e % d>>
LOCAL Lower == B("0123456789abcdef")
LOCAL Upper == B("0123456789ABCDEF")
RECURSIVE InBase(_, _, _)
\* without leading zeros; nothing for zero
InBase(v, base, upper) ==
  IF v = Zero THEN <<>>
  ELSE LET q == Div(v, base) IN InBase(q[1], base, upper) \o <<(IF upper THEN Upper ELSE Lower)[q[2] + 1]>>
=============================================================================
