---------------------------- MODULE MCTimeTrace ----------------------------
(* The ring buffers and the merge as implemented, against TimeTrace.         *)
EXTENDS TimeTrace, TLC
CONSTANTS Buffers, Cap, MaxTime, MaxEvents
VARIABLES ring, next, hist, now
vars == <<ring, next, hist, now>>

Empty == [i \in 0..(Cap - 1) |-> <<>>]
Init == /\ ring = [b \in Buffers |-> Empty] /\ next = [b \in Buffers |-> 0]
        /\ hist = [b \in Buffers |-> <<>>] /\ now = [b \in Buffers |-> 1]
Record(b, t) ==
    /\ t >= now[b] /\ CountOf(hist[b]) < MaxEvents
    /\ ring' = [ring EXCEPT ![b][next[b]] = <<b, CountOf(hist[b]) + 1, t>>]
    /\ next' = [next EXCEPT ![b] = (@ + 1) % Cap]
    /\ hist' = [hist EXCEPT ![b] = Append(@, [f |-> 0, n |-> 1, t |-> t, d |-> 0])]
    /\ now' = [now EXCEPT ![b] = t]
Reset ==
    /\ ring' = [b \in Buffers |-> Empty] /\ next' = [b \in Buffers |-> 0]
    /\ hist' = [b \in Buffers |-> <<>>] /\ UNCHANGED now
Next == (\E b \in Buffers, t \in 1..MaxTime : Record(b, t)) \/ Reset
Spec == Init /\ [][Next]_vars

(* print *)
Begin(b) == IF ring[b][(next[b] + 1) % Cap] # <<>> THEN (next[b] + 1) % Cap ELSE 0
Time(b, i) == ring[b][i][3]
RingStart == LET S == {b \in Buffers : ring[b][Begin(b)] # <<>>} IN
    IF S = {} THEN 0 ELSE CHOOSE x \in {Time(b, Begin(b)) : b \in S} : \A b \in S : Time(b, Begin(b)) <= x
RECURSIVE Skip(_, _, _)
Skip(b, i, s) == IF ring[b][i] # <<>> /\ Time(b, i) < s /\ i # next[b] THEN Skip(b, (i + 1) % Cap, s) ELSE i
RECURSIVE Merge(_)
Merge(c) ==
    LET R == {b \in Buffers : c[b] # next[b] /\ ring[b][c[b]] # <<>>} IN
    IF R = {} THEN <<>>
    ELSE LET b == CHOOSE x \in R : \A y \in R : Time(x, c[x]) < Time(y, c[y]) \/ (Time(x, c[x]) = Time(y, c[y]) /\ x <= y)
         IN <<ring[b][c[b]]>> \o Merge([c EXCEPT ![b] = (@ + 1) % Cap])
Printed == Merge([b \in Buffers |-> Skip(b, Begin(b), RingStart)])
Right == Complete(hist, Cap, Printed) /\ InTimeOrder(Printed) /\ RingStart = Start(hist, Cap)
=============================================================================
