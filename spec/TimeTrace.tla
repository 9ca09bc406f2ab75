------------------------------ MODULE TimeTrace ------------------------------
(* TimeTrace: per-thread circular buffers of timestamped events, printed as  *)
(* one trace in time order.  A buffer's history since the last reset is a    *)
(* sequence of runs [f format, n events, t first timestamp, d step].         *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE CountOf(_)
CountOf(h) == IF h = <<>> THEN 0 ELSE h[Len(h)].n + CountOf(SubSeq(h, 1, Len(h) - 1))
(* run and position within it of the i-th event *)
RECURSIVE Locate(_, _)
Locate(h, i) == IF i <= h[1].n THEN <<h[1], i>> ELSE Locate(Tail(h), i - h[1].n)
Stamp(h, i) == LET p == Locate(h, i) IN p[1].t + (p[2] - 1) * p[1].d

(* a buffer of cap slots keeps the cap - 1 most recent events *)
OldestKept(h, cap) == IF CountOf(h) < cap THEN 1 ELSE CountOf(h) - cap + 2
(* the trace starts where all buffers that contain anything have events *)
Start(hs, cap) ==
    LET S == {b \in DOMAIN hs : CountOf(hs[b]) > 0} IN
    IF S = {} THEN 0
    ELSE CHOOSE x \in {Stamp(hs[b], OldestKept(hs[b], cap)) : b \in S} :
            \A b \in S : Stamp(hs[b], OldestKept(hs[b], cap)) <= x
(* first event of h at or after the start (stamps do not decrease), by bisection *)
RECURSIVE FirstFrom(_, _, _, _)
FirstFrom(h, s, lo, hi) ==          \* smallest i in lo..hi with Stamp >= s, hi + 1 if none
    IF lo > hi THEN lo
    ELSE LET m == (lo + hi) \div 2 IN
         IF Stamp(h, m) >= s THEN FirstFrom(h, s, lo, m - 1) ELSE FirstFrom(h, s, m + 1, hi)
First(h, s, cap) == FirstFrom(h, s, OldestKept(h, cap), CountOf(h))

(* out: sequence of <<buffer, number of the event in its history, stamp>> as printed *)
Of(out, b) == SelectSeq(out, LAMBDA e : e[1] = b)
Complete(hs, cap, out) ==
    LET s == Start(hs, cap) IN
    /\ \A i \in 1..Len(out) : out[i][1] \in DOMAIN hs
    /\ \A b \in DOMAIN hs :
        LET o == Of(out, b) f == First(hs[b], s, cap) IN
        /\ Len(o) = CountOf(hs[b]) - f + 1
        /\ \A i \in 1..Len(o) : o[i][2] = f + i - 1
InTimeOrder(out) == \A i \in 2..Len(out) : out[i - 1][3] <= out[i][3]
=============================================================================
