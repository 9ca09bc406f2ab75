------------------------------- MODULE Encoder -------------------------------
(* The encoder's buffer discipline.  State: a buffer of `size' bytes of which `used' are filled, the number   *)
(* of call sites described so far (`known'), and how many of the messages waiting in the input are encoded.   *)
(* A message of s input bytes takes at most Worst(s) output bytes; an extent header takes Hdr bytes.          *)
EXTENDS Integers, Sequences
Hdr == 13                       \* at most
DictHdr == 8
Worst(s) == 2 * s + 16
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k][2] + SumTo(s, k - 1)       \* bytes of the first k messages <<kind, size>>

\* encode(nb bytes of the messages ms, sites below `known' usable) in a buffer with `room' bytes left
\* may take k messages and use delta bytes:
Prefix(ms, nb, k, half) == k <= Len(ms) /\ (k > 0 => (SumTo(ms, k) <= nb \/ ms[k][2] >= half))
Usable(ms, known, k) == \A i \in 1..k : ms[i][1] < known
Fits(room, delta) == delta >= 0 /\ delta <= room
\* it must take the next message when that is completely there, described, and certain to fit with slack
Stuck(ms, nb, known, k, room, delta) ==
    /\ k < Len(ms) /\ ms[k + 1][1] < known /\ SumTo(ms, k + 1) <= nb
    /\ room - delta >= 2 * Worst(ms[k + 1][2]) + Hdr

\* --- as a state machine, for checking that the discipline is sufficient: every input is eventually encoded, in order
CONSTANTS Sizes, BufSizes, MaxMsgs, MaxBufs
VARIABLES todo, done, size, used, bufs
ev == <<todo, done, size, used, bufs>>
Init == /\ todo \in UNION {[1..n -> {<<0, s>> : s \in Sizes}] : n \in 0..MaxMsgs} /\ done = 0 /\ size \in BufSizes /\ used = 0 /\ bufs = 1
Rest == SubSeq(todo, done + 1, Len(todo))
Encode == /\ done < Len(todo)
          /\ \E k \in 0..Len(Rest), delta \in 0..(size - used) :
                /\ Fits(size - used, delta)
                /\ (k > 0 => delta >= k)                                    \* messages are not free
                /\ SumTo(Rest, k) * 2 + k * 16 + Hdr >= delta                \* nor larger than the worst case
                /\ ~Stuck(Rest, SumTo(Rest, Len(Rest)), 1, k, size - used, delta)
                /\ done' = done + k /\ used' = used + delta
          /\ UNCHANGED <<todo, size, bufs>>
Fresh == used > 0 /\ bufs < MaxBufs /\ \E n \in BufSizes : size' = n /\ used' = 0 /\ bufs' = bufs + 1 /\ UNCHANGED <<todo, done>>
Next == Encode \/ Fresh
Spec == Init /\ [][Next]_ev
Inside == used <= size
\* a fresh buffer that has room for every message with slack always makes progress
Progress == [][(used = 0 /\ Len(Rest) > 0 /\ size >= 2 * Worst(Rest[1][2]) + 2 * Hdr /\ Encode) => done' > done]_ev
=============================================================================
