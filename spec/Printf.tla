-------------------------------- MODULE Printf --------------------------------
(* What printf prints: the text of a format with given arguments. Integers, characters, strings and pointers are rendered by the
   specification; the digits of floating-point numbers are taken as given, rendered one by one by the C library. *)
EXTENDS Format
\* an argument is [i |-> limbs] or [s |-> bytes] or [u |-> code points] or [g |-> given text], plus the type it has in the program
Sizes == [int |-> 4, unsigned |-> 4, short |-> 2, ushort |-> 2, schar |-> 1, uchar |-> 1, char |-> 1, bool |-> 1, long |-> 8, ulong |-> 8, llong |-> 8, ullong |-> 8,
          intmax |-> 8, uintmax |-> 8, size |-> 8, ssize |-> 8, ptrdiff |-> 8, wint |-> 4, wchar |-> 4]
SignedTypes == {"int", "short", "schar", "char", "long", "llong", "intmax", "ssize", "ptrdiff", "wchar"}
\* the value a variable of type t gets from a 64-bit pattern
Stored(x, t) == IF t = "bool" THEN (IF x = Zero THEN Zero ELSE <<0, 0, 0, 1>>) ELSE IF t \in SignedTypes THEN Signed(x, Sizes[t]) ELSE Cut(x, Sizes[t])

Has(fl, b) == \E n \in DOMAIN fl : fl[n] = b
Left(i, w) == Has(i.fl, 45) \/ w < 0
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* what a dynamic width or precision amounts to; absent: width 0, precision -1
WidthOf(i, dyn) == IF i.w = -2 THEN dyn ELSE IF i.w = -1 THEN 0 ELSE i.w
PrecisionOf(i, dyn) == CASE i.p = -1 -> -1 [] i.p = -3 -> 0 [] i.p = -2 -> (IF dyn < 0 THEN -1 ELSE dyn) [] OTHER -> i.p
Pad(i, w, text) == LET fill == Rep(32, Max(0, Abs(w) - Len(text))) IN IF Left(i, w) THEN text \o fill ELSE fill \o text
Number3(i, w, p, sign, prefix, digits) ==
  LET body == Rep(48, Max(0, p - Len(digits))) \o digits
      room == Abs(w) - Len(sign) - Len(prefix) - Len(body)
  IN IF Has(i.fl, 48) /\ ~Left(i, w) /\ p < 0 THEN sign \o prefix \o Rep(48, Max(0, room)) \o body ELSE Pad(i, w, sign \o prefix \o body)
SignedText(i, w, p, x) ==
  LET v == Signed(x, Width(i))
      neg == Negative(v)
      digits == InBase(IF neg THEN Negate(v) ELSE v, 10, FALSE)
      sign == IF neg THEN <<45>> ELSE IF Has(i.fl, 43) THEN <<43>> ELSE IF Has(i.fl, 32) THEN <<32>> ELSE <<>>
  IN Number3(i, w, p, sign, <<>>, IF digits = <<>> /\ p # 0 THEN <<48>> ELSE digits)
UnsignedText(i, w, p, x) ==
  LET v == Cut(x, Width(i))
      base == CASE i.c = "u" -> 10 [] i.c = "o" -> 8 [] OTHER -> 16
      raw == InBase(v, base, i.c = "X")
      digits == IF raw = <<>> /\ p # 0 THEN <<48>> ELSE raw
      alt == Has(i.fl, 35)
      prefix == IF alt /\ v # Zero /\ i.c = "x" THEN <<48, 120>> ELSE IF alt /\ v # Zero /\ i.c = "X" THEN <<48, 88>> ELSE <<>>
      octal == alt /\ i.c = "o" /\ (digits = <<>> \/ digits[1] # 48) /\ p <= Len(digits)
  IN Number3(i, w, p, <<>>, prefix, IF octal THEN <<48>> \o digits ELSE digits)
PointerText(i, w, x) == IF x = Zero THEN Pad(i, w, B("(nil)")) ELSE Pad(i, w, <<48, 120>> \o InBase(x, 16, FALSE))
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Whole(_, _)
\* the bytes of whole characters fitting in room (negative: everything)
Whole(u, room) == IF u = <<>> THEN <<>>
                  ELSE LET b == Utf8(Head(u)) IN IF room >= 0 /\ Len(b) > room THEN <<>> ELSE b \o Whole(Tail(u), IF room < 0 THEN room ELSE room - Len(b))
StringText(i, w, p, s) == Pad(i, w, IF p >= 0 THEN SubSeq(s, 1, Min(p, Len(s))) ELSE s)
Small(x) == x[3] * 65536 + x[4]
\* dynamic widths and precisions are small
DynValue(x) == IF Negative(Signed(x, 4)) THEN 0 - Small(Negate(Signed(x, 4))) ELSE Small(x)
\* one conversion with the arguments that belong to it
ConvText(i, args) ==
  LET dw == IF i.w = -2 THEN DynValue(args[1].i) ELSE 0
      dp == IF i.p = -2 THEN DynValue(args[IF i.w = -2 THEN 2 ELSE 1].i) ELSE 0
      a == args[Len(args)]
      w == WidthOf(i, dw)
      p == PrecisionOf(i, dp)
  IN CASE i.c \in Signeds -> SignedText(i, w, p, a.i)
       [] i.c \in Unsigneds -> UnsignedText(i, w, p, a.i)
       [] i.c \in Floating -> a.g
       [] i.c = "c" /\ i.len = "" -> Pad(i, w, <<a.i[4] % 256>>)
       [] i.c = "c" /\ i.len = "l" -> Pad(i, w, Utf8(Small(a.i)))
       [] i.c = "s" /\ i.len = "" -> StringText(i, w, p, a.s)
       [] i.c = "s" /\ i.len = "l" -> Pad(i, w, Whole(a.u, p))
       [] i.c = "p" -> PointerText(i, w, a.i)
Takes(i) == Len(ParamsOf(i))
RECURSIVE Halve(_)
\* in literal text "%%" stands for "%"
Halve(b) == IF b = <<>> THEN <<>> ELSE <<b[1]>> \o Halve(SubSeq(b, IF b[1] = 37 THEN 3 ELSE 2, Len(b)))
RECURSIVE Render(_, _)
Render(items, args) ==
  IF items = <<>> THEN <<>>
  ELSE LET i == Head(items)
       IN IF i.k = "t" THEN Halve(i.b) \o Render(Tail(items), args)
          ELSE ConvText(i, SubSeq(args, 1, Takes(i))) \o Render(Tail(items), SubSeq(args, Takes(i) + 1, Len(args)))
\* what a reader gets for the argument of a conversion, as a 64-bit pattern
ValueOf(i, x) == CASE i.c \in Signeds /\ i.len = "z" -> x
                   [] i.c \in Signeds -> Signed(x, Width(i)) [] i.c \in Unsigneds /\ i.len = "t" -> x [] i.c \in Unsigneds -> Cut(x, Width(i))
                   [] i.c = "c" /\ i.len = "" -> Signed(x, 4) [] i.c = "c" -> Cut(x, 4)
                   [] OTHER -> x
RECURSIVE Values(_, _)
\* per conversion, its own argument without dynamic widths and precisions
Values(items, args) ==
  IF items = <<>> THEN <<>>
  ELSE LET i == Head(items)
       IN IF i.k = "t" THEN Values(Tail(items), args) ELSE <<args[Takes(i)]>> \o Values(Tail(items), SubSeq(args, Takes(i) + 1, Len(args)))
=============================================================================
