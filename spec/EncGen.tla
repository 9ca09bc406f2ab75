------------------------------- MODULE EncGen -------------------------------
(* Operation sequences for the encoder: fresh buffers, dictionary entries, messages, encode calls. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Flavours, BufSizes, DictSteps, Kinds, Vals, Threads, Chunks, Ckpts, MaxOps, MinOps, MaxMsgsAtOnce
VARIABLES ops, done, phase
gv == <<ops, done, phase>>
Op(o, a, b, c) == [o |-> o, a |-> a, b |-> b, c |-> c]
Init == \E f \in Flavours, n \in BufSizes : ops = <<Op(f, 0, 0, 0), Op("B", n, 0, 0)>> /\ done = FALSE /\ phase = "any"
More == ~done /\ Len(ops) < MaxOps
Add(o) == ops' = Append(ops, o) /\ UNCHANGED done
Buf == More /\ phase # "B" /\ (\E n \in BufSizes : Add(Op("B", n, 0, 0))) /\ phase' = "B"
Dict == More /\ ops[1].o = "c" /\ (\E k \in DictSteps : Add(Op("D", k, 0, 0))) /\ phase' = "D"
Msg == More /\ (\E k \in Kinds, x \in Vals, n \in 1..MaxMsgsAtOnce :
                   ops' = ops \o [i \in 1..n |-> Op("M", (k + i - 1) % 7, (x + 7 * i) % 700, 0)] /\ UNCHANGED done) /\ phase' = "M"
Enc == More /\ phase # "E0" /\ (\E t \in Threads, n \in Chunks : Add(Op("E", t, 0, n)) /\ phase' = IF n = 0 THEN "E0" ELSE "E")
Ckpt == More /\ (\E n \in Ckpts, d \in {0, 1} : Add(Op("C", n, d, 0))) /\ phase' = "C"
Stop == ~done /\ Len(ops) >= MinOps /\ done' = TRUE /\ PrintT(ToJson(ops)) /\ UNCHANGED <<ops, phase>>
Next == Buf \/ Dict \/ Msg \/ Enc \/ Ckpt \/ Stop
=============================================================================
