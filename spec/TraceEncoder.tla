----------------------------- MODULE TraceEncoder -----------------------------
(* Recorded calls of the real encoder against Encoder. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Half                     \* messages from this size on are encoded although only their start is in the chunk
Hdr == 13
DictHdr == 8
VARIABLES tr, l, rejected, size, used, known, taken
E == INSTANCE Encoder WITH Sizes <- {}, BufSizes <- {}, MaxMsgs <- 0, MaxBufs <- 0, todo <- <<>>, done <- 0, bufs <- 0
v == <<tr, l, rejected, size, used, known, taken>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr][l]
If(c, x) == IF c THEN {} ELSE {x}
Took(e) == CHOOSE k \in 0..Len(e.ms) : E!SumTo(e.ms, k) = e.got \/ \A j \in 0..Len(e.ms) : E!SumTo(e.ms, j) # e.got
Broken(e) ==
  CASE e.op = "buf" -> If(e.back /\ (used = -1 \/ e.len = used), "handover")
    [] e.op = "dict" -> If(e.guard, "outside") \cup If(E!Fits(size - used, e.delta), "overflow")
                        \cup If(e.known >= e.was /\ e.known <= e.all, "entries")
                        \cup If(e.delta = e.r /\ (e.known > e.was => e.delta = DictHdr + e.need) /\ (e.known = e.was => e.delta \in {0, DictHdr}), "partial")
                        \cup If(e.known < e.all => size - used - e.delta < e.next + 2 * DictHdr + 16, "stuck")
    [] e.op = "enc" -> LET k == Took(e) IN
                        If(e.guard, "outside") \cup If(E!Fits(size - used, e.delta), "overflow")
                        \cup (IF E!SumTo(e.ms, k) # e.got THEN {"partial"} ELSE
                              If(E!Prefix(e.ms, e.nb, k, Half), "partial") \cup If(E!Usable(e.ms, e.known, k), "undescribed")
                              \cup If(e.cnt = k, "count") \cup If(~E!Stuck(e.ms, e.nb, e.known, k, size - used, e.delta), "stuck"))
    [] e.op = "ckpt" -> If(e.guard, "outside") \cup If(IF e.ok THEN e.moved = e.need /\ e.need <= e.n ELSE e.moved = 0, "partial")
                        \cup If(e.n >= e.need + 64 => e.ok, "stuck")
    [] e.op = "end" -> If(e.guards, "outside") \cup If(e.opened /\ e.good, "malformed") \cup If(e.left = 0 /\ e.want = taken, "stuck")
                        \cup If(e.n >= taken, "lost") \cup If(e.n <= taken, "duplicated") \cup If(e.right, "garbled")
    [] e.op = "crash" -> {"crash"}
Effect(e) ==
  CASE e.op = "buf" -> size' = e.n /\ used' = 0 /\ UNCHANGED <<known, taken>>
    [] e.op = "dict" -> used' = used + e.delta /\ known' = e.known /\ UNCHANGED <<size, taken>>
    [] e.op = "enc" -> used' = used + e.delta /\ taken' = taken + Took(e) /\ UNCHANGED <<size, known>>
    [] OTHER -> UNCHANGED <<size, used, known, taken>>
\* every case starts with a fresh buffer, after the constructor's checkpoint (used = -1: not observed)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE /\ size = 0 /\ used = -1 /\ known = 0 /\ taken = 0
Step == ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) = {} /\ l' = l + 1 /\ Effect(Ev) /\ UNCHANGED <<tr, rejected>>
Reject == /\ ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) # {}
          /\ PrintT(<<"REJECT", tr, l, Broken(Ev)>>) /\ rejected' = TRUE /\ UNCHANGED <<tr, l, size, used, known, taken>>
Done == ~rejected /\ l = Len(Traces[tr]) + 1 /\ TLCSet(1, TLCGet(1) + 1) /\ rejected' = TRUE /\ UNCHANGED <<tr, l, size, used, known, taken>>
Next == Step \/ Reject \/ Done
Spec == Init /\ [][Next]_v
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"ACCEPTED", TLCGet(1), "OF", Len(Traces)>>)
=============================================================================
