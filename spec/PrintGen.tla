------------------------------- MODULE PrintGen -------------------------------
(* Log statements: formats with arguments of every type a conversion accepts, and values for a number of executions of each. *)
EXTENDS Printf, TLC, Json
CONSTANTS MinItems, MaxItems, Rounds, Locale, Floats
VARIABLES items, args, done
v == <<items, args, done>>
Pick(S) == {RandomElement(S)}
FlagSets(c) == {B(f) : f \in CASE c \in Signeds -> {"", "-", "+", " ", "0", "-0", "+0", " 0", "-+", "+ ", "00"}
                               [] c = "u" -> {"", "-", "0"}
                               [] c \in Unsigneds -> {"", "-", "0", "#", "#0", "-#"}
                               [] c \in Floating -> {"", "-", "+", " ", "0", "#", "+0", "#0", "-#"}
                               [] OTHER -> {"", "-"}}
Lits == {Lit(B(s)) : s \in {"a", "%%", "\\", "\"", "d", "5", ".*", "{}", "'", "%%d", "C:\\", "ll", " ", ", ", " = ", "%%%%s", "/*", "//x", "NANO_LOG(", ");", "?"}} \cup {Lit(<<10>>), Lit(<<195, 169>>), Lit(<<9>>), Lit(<<7>>)}
Kinds == Letters \ (IF Floats THEN {} ELSE Floating)
Group == [int |-> Integral, float |-> Floating, str |-> {"s"}, char |-> {"c"}, ptr |-> {"p"}]
PickConv(g, w, p, fl, len, c) == Conv(fl, w, IF c \in {"c", "p"} THEN -1 ELSE p, len, c)
TypesOf(i) ==
  CASE i.c \in Integral -> (CASE i.len = "" -> {"int", "unsigned", "short", "ushort", "schar", "uchar", "char", "bool"}
                              [] i.len = "hh" -> {"int", "schar", "uchar", "char", "unsigned"}
                              [] i.len = "h" -> {"int", "short", "ushort", "unsigned"}
                              [] i.len \in {"l", "ll"} -> {"long", "ulong", "llong", "ullong"}
                              [] i.len = "j" -> {"intmax", "uintmax"} [] i.len = "z" -> {"size", "ssize"} [] i.len = "t" -> {"ptrdiff"})
    [] i.c \in Floating -> IF i.len = "L" THEN {"ldouble"} ELSE {"double", "float"}
    [] i.c = "c" -> IF i.len = "l" THEN {"wint", "wchar"} ELSE {"int", "char", "uchar"}
    [] i.c = "s" -> IF i.len = "l" THEN {"cwstr", "wstr"} ELSE {"cstr", "str", "array"}
    [] i.c = "p" -> {"cvoidp", "voidp", "intp", "cstrp", "pp"}
Patterns == {Zero, <<0, 0, 0, 1>>, <<F, F, F, F>>, <<0, 0, 0, 9>>, <<0, 0, 0, 10>>, <<F, F, F, 65526>>, <<0, 0, 0, 42>>, <<0, 0, 0, 100>>, <<0, 0, 0, 127>>, <<0, 0, 0, 128>>,
             <<F, F, F, 65408>>, <<F, F, F, 65407>>, <<0, 0, 0, 255>>, <<0, 0, 0, 256>>, <<0, 0, 0, 300>>, <<F, F, F, 65236>>, <<0, 0, 0, 32767>>, <<0, 0, 0, 32768>>,
             <<F, F, F, 32768>>, <<0, 0, 0, F>>, <<0, 0, 1, 0>>, <<0, 0, 255, F>>, <<0, 0, 256, 0>>, <<0, 0, 32767, F>>, <<0, 0, 32768, 0>>, <<F, F, 32768, 0>>, <<0, 0, F, F>>,
             <<0, 1, 0, 0>>, <<0, 255, F, F>>, <<0, F, F, F>>, <<1, 0, 0, 0>>, <<255, F, F, F>>, <<32767, F, F, F>>, <<32768, 0, 0, 0>>, <<32768, 0, 0, 1>>, <<4660, 22136, 37035, 52719>>}
Long(n, k) == [j \in 1..n |-> 33 + ((j * k) % 94)]
Strings == {B(s) : s \in {"", "a", "ab", "hello", "%d %s %%", "C:\\temp\\x", "\"quoted\"", "0123456789", "0123456789abc", " ", "{}"}} \cup {<<9, 10, 13>>, <<195, 169, 195>>, <<255, 1, 128>>, Long(65, 7), Long(300, 3)}
Wides == {B("w"), <<>>, B("wide"), B("0123456789abc"), B("%ls"), Long(40, 5)}
         \cup (IF Locale = "C" THEN {} ELSE {<<233>>, <<8364, 128512, 65>>, <<955, 8364, 233, 97>>, <<65536, 1114111, 2047, 2048, 128>>, [j \in 1..30 |-> 128 * j]})
Numbers == {"0.0", "-0.0", "1.0", "-1.5", "3.14159265358979", "1e300", "-1e-300", "2.2250738585072014e-308", "5e-324", "INFINITY", "-INFINITY", "NAN", "123456789.0", "0.1", "65536.0",
            "1e15", "9007199254740993.0", "99999.95", "-2.5", "1e22", "0.5", "1e-5"}
LongNumbers == Numbers \cup {"1e4000L", "3.14159265358979323846264L", "-1e-4000L"}
Widths == {0, 1, 7, 20, -1, -7, -20}
Precisions == {0, 1, 2, 5, 13, 40, -1, -9}
SmallInt(n) == IF n < 0 THEN Negate(<<0, 0, 0, 0 - n>>) ELSE <<0, 0, 0, n>>
\* a value for an argument of type t
ValueFor(t) ==
  CASE t = "dynw" -> [i |-> SmallInt(RandomElement(Widths))]
    [] t = "dynp" -> [i |-> SmallInt(RandomElement(Precisions))]
    [] t \in {"double", "float"} -> [x |-> RandomElement(Numbers)]
    [] t = "ldouble" -> [x |-> RandomElement(LongNumbers)]
    [] t \in {"cwstr", "wstr"} -> [u |-> RandomElement(Wides)]
    [] t \in {"cstr", "str", "array"} -> [s |-> RandomElement(Strings)]
    [] t \in {"cvoidp", "voidp", "intp", "cstrp", "pp"} -> [i |-> RandomElement(Patterns)]
    [] t \in {"wint", "wchar"} -> [i |-> <<0, 0, 0, RandomElement({1, 65, 126} \cup (IF Locale = "C" THEN {} ELSE {233, 8364, 2047, 2048}))>>]
    [] OTHER -> [i |-> Stored(RandomElement(Patterns), t)]
Arg(t) == [t |-> t, v |-> [r \in 1..Rounds |-> ValueFor(t)]]
Init == items = <<>> /\ args = <<>> /\ done = FALSE
Put(i, t) == /\ items' = Append(items, i)
             /\ args' = args \o (IF i.w = -2 THEN <<Arg("dynw")>> ELSE <<>>) \o (IF i.p = -2 THEN <<Arg("dynp")>> ELSE <<>>) \o <<Arg(t)>>
             /\ UNCHANGED done
More == \E k \in Pick(1..20) :
          IF k <= 7 THEN \E i \in Pick(Lits) : items' = Append(items, i) /\ UNCHANGED <<args, done>>
          ELSE \E g \in Pick(IF k <= 11 THEN {"int"} ELSE IF k <= 16 THEN {"str"} ELSE IF k = 17 /\ Floats THEN {"float"} ELSE DOMAIN Group \ (IF Floats THEN {} ELSE {"float"})) :
               \E c \in Pick(Group[g]) : \E fl \in Pick(FlagSets(c)) : \E len \in Pick(LengthsOf(c)) : \E w \in Pick({-1, -1000, -2, 1, 9, 25}) : \E p \in Pick({-1, -1000, -2, -3, 0, 1, 4, 17}) :
               LET i == PickConv(g, IF w = -1000 THEN -1 ELSE w, IF p = -1000 THEN -1 ELSE p, fl, len, c) IN \E t \in Pick(TypesOf(i)) : Put(i, t)
Next == \/ ~done /\ Len(items) < MaxItems /\ More
        \/ ~done /\ Len(items) >= MinItems /\ (Len(items) = MaxItems \/ \E k \in Pick(1..5) : k = 1) /\ PrintT(ToJson([items |-> items, args |-> args])) /\ done' = TRUE /\ UNCHANGED <<items, args>>
=============================================================================
