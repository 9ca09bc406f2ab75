------------------------------- MODULE FormatGen -------------------------------
(* Format strings for the analyses, and the invariant that reading a format back yields what it was written from. *)
EXTENDS Format, TLC, Json
CONSTANTS What, MaxLen
VARIABLES items, done
v == <<items, done>>
FlagSets == {B(f) : f \in {"", "-", "+", " ", "0", "#", "-0", "+0", " #", "#0-", "00", "-+ #0"}}
FlagNames == [b \in {45, 43, 32, 35, 48} |-> CASE b = 45 -> "-" [] b = 43 -> "+" [] b = 32 -> " " [] b = 35 -> "#" [] b = 48 -> "0"]
Good(i) == ValidConv(i) /\ \A n \in DOMAIN i.fl : FlagOK(FlagNames[i.fl[n]], i.c)
Widths == {-1, -2, 7, 12}
Precisions == {-1, -2, -3, 0, 13}
All == {i \in {Conv(fl, w, p, len, c) : fl \in FlagSets, w \in Widths, p \in Precisions, len \in {"", "hh", "h", "l", "ll", "j", "z", "t", "L"}, c \in Letters} : Good(i)}
Lits == {Lit(B(s)) : s \in {"a", "%%", "\\", "\\\\", "%%%%", "\"", "d", "5", ".*", "{}", "'", "%%d", "C:\\", "l", " \\%%n ", "/* */", "// ", "%%%%s", "${x} {0}"}}
        \cup {Lit(<<10>>), Lit(<<195, 169>>), Lit(<<9, 32>>), Lit(<<92, 10>>), Lit(<<1>>)}
Small == {Conv(<<>>, -1, -1, "", "d"), Conv(<<>>, -1, -1, "", "s"), Conv(<<48>>, 5, -1, "hh", "x"), Conv(<<>>, -2, -2, "", "f"), Conv(<<45>>, -2, 3, "", "s"),
          Conv(<<>>, -1, -2, "l", "s"), Conv(<<>>, -1, -3, "", "s"), Conv(<<>>, -1, -1, "", "p"), Conv(<<32>>, -1, -1, "ll", "d"), Conv(<<>>, -1, -1, "L", "g")}
SmallLits == {Lit(B("%%")), Lit(B("\\")), Lit(B("d")), Lit(B("5")), Lit(B("\"x")), Lit(<<10>>)}
Big == {Conv(<<>>, 120, 250, "", "s"), Conv(<<48, 48, 48>>, 99, 4095, "ll", "X"), Conv(<<>>, -2, 65535, "l", "s"), Conv(<<45, 45>>, 1000, -2, "L", "a")}
Init == done = FALSE /\ items \in (IF What = "single" THEN {<<i>> : i \in All} \cup {<<>>} ELSE {<<>>})
Pick(S) == {RandomElement(S)}
Next ==
  \/ ~done /\ What = "short" /\ Len(items) < MaxLen /\ \E i \in Small \cup SmallLits : items' = Append(items, i) /\ UNCHANGED done
  \/ ~done /\ What = "random" /\ Len(items) < MaxLen
     /\ \E k \in Pick(1..10) : \E i \in Pick(IF k < 5 THEN Lits ELSE IF k = 5 THEN Big ELSE All) : items' = Append(items, i) /\ UNCHANGED done
  \/ ~done /\ (What = "random" => Len(items) = MaxLen) /\ PrintT(ToJson([items |-> items, text |-> Text(items)])) /\ done' = TRUE /\ UNCHANGED items
Spec == Init /\ [][Next]_v
ReadsBack == Scan(Text(items)) = Normal(items)
=============================================================================
