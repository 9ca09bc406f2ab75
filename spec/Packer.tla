------------------------------- MODULE Packer -------------------------------
(* Values of fixed width written with as few digits as possible, each described by a small code; a      *)
(* stream is all the codes followed by all the digits.  Numbers are little-endian sequences of digits   *)
(* to base R (the real code has R = 256 and widths 1 to 8); negative numbers are R-complements.         *)
(* State machine: values are appended to a stream by a writer and taken off by a reader.                *)
EXTENDS Integers, Sequences
CONSTANTS R,            \* base (even)
          Types,        \* set of records [name, width, signed, raw]; raw: copied verbatim (floating point)
          MaxWidth,     \* most digits a code can describe (8)
          MaxItems

Digit == 0..(R - 1)
Values(t) == [1..t.width -> Digit]
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[Len(s)] = 0 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Pad(s, n, d) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE d]
\* R-complement: complement every digit, add one
RECURSIVE AddOne(_, _)
AddOne(s, i) == IF i > Len(s) THEN s ELSE IF s[i] = R - 1 THEN AddOne([s EXCEPT ![i] = 0], i + 1) ELSE [s EXCEPT ![i] = s[i] + 1]
Neg(s) == AddOne([i \in 1..Len(s) |-> R - 1 - s[i]], 1)
IsNeg(s) == s[Len(s)] >= R \div 2

\* the code: digits used, plus MaxWidth if the digits are those of the negated value; 0: a raw value wider than MaxWidth
Pack(t, v) ==
    IF t.raw THEN [code |-> IF t.width > MaxWidth THEN 0 ELSE t.width, digits |-> v]
    ELSE IF t.signed /\ IsNeg(v) /\ Len(Strip(Neg(v))) < t.width
         THEN [code |-> MaxWidth + Len(Strip(Neg(v))), digits |-> Strip(Neg(v))]
         ELSE [code |-> Len(Strip(v)), digits |-> Strip(v)]
CodeLen(c) == IF c = 0 THEN 2 * MaxWidth ELSE IF c > MaxWidth THEN c - MaxWidth ELSE c
\* takes CodeLen(code) digits at the front of ds
Unpack(t, code, ds) ==
    LET d == SubSeq(ds, 1, CodeLen(code))
    IN  IF t.raw THEN Pad(d, t.width, 0) ELSE IF code > MaxWidth THEN Neg(Pad(d, t.width, 0)) ELSE Pad(d, t.width, 0)

VARIABLES items,      \* ghost: what was packed, in order
          codes, digits,            \* the stream
          got                       \* what has been unpacked
vars == <<items, codes, digits, got>>
Init == items = <<>> /\ codes = <<>> /\ digits = <<>> /\ got = <<>>
Write == /\ Len(items) < MaxItems /\ got = <<>>
         /\ \E t \in Types : \E v \in Values(t) :
              LET p == Pack(t, v) IN
              /\ items' = Append(items, <<t, v>>) /\ codes' = Append(codes, p.code) /\ digits' = digits \o p.digits
         /\ UNCHANGED got
Read == /\ codes # <<>>
        /\ got' = Append(got, Unpack(items[Len(got) + 1][1], Head(codes), digits))
        /\ codes' = Tail(codes) /\ digits' = SubSeq(digits, CodeLen(Head(codes)) + 1, Len(digits))
        /\ UNCHANGED items
Next == Write \/ Read
Spec == Init /\ [][Next]_vars

CodeFits == \A i \in 1..Len(codes) : codes[i] \in 0..(2 * MaxWidth - 1)
Compact == \A i \in 1..Len(items) : Len(Pack(items[i][1], items[i][2]).digits) <= items[i][1].width
RoundTrip == \A i \in 1..Len(got) : got[i] = items[i][2]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE CodeLen(Head(s)) + Sum(Tail(s))
Aligned == Len(digits) = Sum(codes)      \* the codes describe exactly the digits that are left
=============================================================================
