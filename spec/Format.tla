-------------------------------- MODULE Format --------------------------------
(* printf format strings: what a sequence of literal texts and conversions looks like as text, how a text is read back, and what
   the analyses of NanoLog's front ends and decoder have to find in it.
   A literal is [k |-> "t", b |-> bytes, percent signs doubled]; a conversion is [k |-> "c", fl |-> flags, w, p, len, c], with
   w: -1 absent, -2 dynamic, otherwise the width;  p: -1 absent, -2 dynamic, -3 a period without digits, otherwise the precision. *)
EXTENDS Bytes, FiniteSets
Lit(b) == [k |-> "t", b |-> b]
Conv(fl, w, p, len, c) == [k |-> "c", fl |-> fl, w |-> w, p |-> p, len |-> len, c |-> c]

Signeds == {"d", "i"}
Unsigneds == {"u", "o", "x", "X"}
Integral == Signeds \cup Unsigneds
Floating == {"f", "F", "e", "E", "g", "G", "a", "A"}
Letters == Integral \cup Floating \cup {"c", "s", "p"}
LengthsOf(c) == IF c \in Integral THEN {"", "hh", "h", "l", "ll", "j", "z", "t"}
                ELSE IF c \in Floating THEN {"", "l", "L"}
                ELSE IF c \in {"c", "s"} THEN {"", "l"} ELSE {""}
\* combinations the C standard leaves undefined are not format strings
FlagOK(f, c) == CASE f = "#" -> c \in {"o", "x", "X"} \cup Floating
                  [] f = "0" -> c \in Integral \cup Floating
                  [] OTHER -> TRUE
ValidConv(i) == /\ i.c \in Letters /\ i.len \in LengthsOf(i.c)
                /\ i.p # -1 => i.c \notin {"c", "p"}

Item(i) == IF i.k = "t" THEN i.b
           ELSE <<37>> \o i.fl \o (CASE i.w = -1 -> <<>> [] i.w = -2 -> <<42>> [] OTHER -> Digits(i.w))
                \o (CASE i.p = -1 -> <<>> [] i.p = -2 -> <<46, 42>> [] i.p = -3 -> <<46>> [] OTHER -> <<46>> \o Digits(i.p))
                \o B(i.len) \o B(i.c)
Text(items) == Join([n \in DOMAIN items |-> Item(items[n])])
RECURSIVE Normal(_)
\* adjacent literals belong together, empty ones disappear
Normal(items) ==
  IF items = <<>> THEN <<>>
  ELSE LET r == Normal(Tail(items)) h == Head(items)
       IN IF h.k = "c" THEN <<h>> \o r
          ELSE IF h.b = <<>> THEN r
          ELSE IF r # <<>> /\ r[1].k = "t" THEN <<Lit(h.b \o r[1].b)>> \o Tail(r)
          ELSE <<h>> \o r

\* reading a format, character by character, as 7.21.6.1 of the C standard says
IsFlag(b) == b \in {45, 43, 32, 35, 48}
IsDigit(b) == b \in 48..57
RECURSIVE Span(_, _, _)
\* the end of the longest run from i on of bytes in a class
Span(t, i, class) == IF i <= Len(t) /\ (IF class = "flag" THEN IsFlag(t[i]) ELSE IsDigit(t[i])) THEN Span(t, i + 1, class) ELSE i
RECURSIVE Number(_, _, _)
Number(t, i, j) == IF i = j THEN 0 ELSE 10 * Number(t, i, j - 1) + t[j - 1] - 48
At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0
LengthAt(t, i) ==
  CASE At(t, i) = 104 /\ At(t, i + 1) = 104 -> "hh" [] At(t, i) = 108 /\ At(t, i + 1) = 108 -> "ll"
    [] At(t, i) = 104 /\ At(t, i + 1) # 104 -> "h" [] At(t, i) = 108 /\ At(t, i + 1) # 108 -> "l"
    [] At(t, i) = 106 -> "j" [] At(t, i) = 122 -> "z" [] At(t, i) = 116 -> "t" [] At(t, i) = 76 -> "L" [] OTHER -> ""
LetterOf(b) == IF \E c \in Letters : B(c) = <<b>> THEN CHOOSE c \in Letters : B(c) = <<b>> ELSE "?"
\* the conversion starting at i: <<where it ends, the conversion>>
ReadConv(t, i) ==
  LET a == Span(t, i + 1, "flag")
      star == At(t, a) = 42
      b == IF star THEN a + 1 ELSE Span(t, a, "digit")
      w == IF star THEN -2 ELSE IF b = a THEN -1 ELSE Number(t, a, b)
      dot == At(t, b) = 46
      pstar == dot /\ At(t, b + 1) = 42
      c == IF ~dot THEN b ELSE IF pstar THEN b + 2 ELSE Span(t, b + 1, "digit")
      p == IF ~dot THEN -1 ELSE IF pstar THEN -2 ELSE IF c = b + 1 THEN -3 ELSE Number(t, b + 1, c)
      l == LengthAt(t, c)
      e == c + Len(l)
  IN <<e + 1, Conv(SubSeq(t, i + 1, a - 1), w, p, l, LetterOf(At(t, e)))>>
RECURSIVE ScanFrom(_, _, _)
ScanFrom(t, i, lit) ==
  LET flush == IF lit = <<>> THEN <<>> ELSE <<Lit(lit)>>
  IN IF i > Len(t) THEN flush
     ELSE IF t[i] # 37 THEN ScanFrom(t, i + 1, Append(lit, t[i]))
     ELSE IF At(t, i + 1) = 37 THEN ScanFrom(t, i + 2, lit \o <<37, 37>>)
     ELSE LET r == ReadConv(t, i) IN flush \o <<r[2]>> \o ScanFrom(t, r[1], <<>>)
Scan(t) == ScanFrom(t, 1, <<>>)

Convs(items) == SelectSeq(items, LAMBDA i : i.k = "c")
\* what every argument is to the C++17 front end (ParamType)
DynWidth == -5
DynPrecision == -4
NonString == -3
DynString == -2
WholeString == -1
OwnParam(i) == IF i.c # "s" THEN NonString ELSE CASE i.p = -2 -> DynString [] i.p = -1 -> WholeString [] i.p = -3 -> 0 [] OTHER -> i.p
ParamsOf(i) == (IF i.w = -2 THEN <<DynWidth>> ELSE <<>>) \o (IF i.p = -2 THEN <<DynPrecision>> ELSE <<>>) \o <<OwnParam(i)>>
Params(items) == LET cs == Convs(items) IN Join([n \in DOMAIN cs |-> ParamsOf(cs[n])])
Nibbles(items) == Len(SelectSeq(Params(items), LAMBDA x : x \in {DynWidth, DynPrecision, NonString}))
\* the C type of a conversion's argument, as the preprocessor writes it
CType(i) ==
  CASE i.c \in Signeds -> (CASE i.len = "" -> "int" [] i.len = "hh" -> "signed char" [] i.len = "h" -> "short int" [] i.len = "l" -> "long int"
                             [] i.len = "ll" -> "long long int" [] i.len = "j" -> "intmax_t" [] i.len = "z" -> "size_t" [] i.len = "t" -> "ptrdiff_t")
    [] i.c \in Unsigneds -> (CASE i.len = "" -> "unsigned int" [] i.len = "hh" -> "unsigned char" [] i.len = "h" -> "unsigned short int" [] i.len = "l" -> "unsigned long int"
                             [] i.len = "ll" -> "unsigned long long int" [] i.len = "j" -> "uintmax_t" [] i.len = "z" -> "size_t" [] i.len = "t" -> "ptrdiff_t")
    [] i.c \in Floating -> IF i.len = "L" THEN "long double" ELSE "double"
    [] i.c = "c" -> IF i.len = "l" THEN "wint_t" ELSE "int"
    [] i.c = "s" -> IF i.len = "l" THEN "const wchar_t*" ELSE "const char*"
    [] i.c = "p" -> "const void*"
\* how many bytes the integer a conversion prints has
Width(i) == CASE i.len = "hh" -> 1 [] i.len = "h" -> 2 [] i.len = "" -> 4 [] OTHER -> 8
=============================================================================
