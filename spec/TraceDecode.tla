----------------------------- MODULE TraceDecode -----------------------------
(* Results of the real decompressor against LogFile.  A trace is a sequence of runs over one layout:       *)
(* [parts, mode, lo, hi, opened, ret, cnt, marks, endok, m], where m is the sequence of decoded messages   *)
(* <<number, execution, thread, site, time>> (site -1: wrong call-site information or text; time -1: wrong  *)
(* clock) obtained from the first lo, ..., hi bytes of the file.                                           *)
EXTENDS LogFile, TLC, Json, IOUtils
VARIABLES tr, l, rejected
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr].runs[l]
If(c, x) == IF c THEN {} ELSE {x}
Complete(parts, c) == SelectSeq(parts, LAMBDA q : q.end <= c)
Against(e, parts, whole) ==
    LET opens == Len(parts) > 0
        ms == IF opens THEN Msgs(parts) ELSE <<>>
        out == [i \in 1..Len(e.m) |-> e.m[i][1]]
        known == \A i \in 1..Len(out) : out[i] \in 1..Len(ms)
        right(i) == LET x == e.m[i] IN LET y == ms[x[1]] IN x[2] = y.e /\ x[3] = y.t /\ x[4] = y.s /\ x[5] = y.ts
    IN  If(e.opened = opens, "open")
        \cup If(known, "invented")
        \cup (IF ~known THEN {} ELSE
              If(\A i \in 1..Len(out) : right(i), "garbled")
              \cup If({out[i] : i \in 1..Len(out)} = 1..Len(ms), "lost")
              \cup If(Len(out) <= Len(ms), "duplicated")
              \cup (IF e.mode # "chrono" THEN If(\A i \in 1..(Len(out) - 1) : out[i] < out[i + 1], "order")
                    ELSE If(ExecOrder(out, ms), "execorder") \cup If(ThreadOrder(out, ms), "threadorder") \cup If(Sorted(out, ms), "sorted")))
        \cup If(e.endok, "end")
        \cup (IF whole THEN If(e.ret = Len(ms), "return") \cup If(e.cnt = Len(ms), "count")
                            \cup If(e.marks = Cardinality({i \in 1..Len(parts) : parts[i].k = "ck"}) - 1, "marks") ELSE {})
Broken(e) ==
    IF e.mode = "crash" THEN {"crash"} ELSE
    LET p == Traces[tr].parts
        whole == e.lo = Traces[tr].size
        a == Complete(p, e.lo)
        b == Complete(p, e.hi)
    IN  Against(e, a, whole) \cup (IF Len(Msgs(a)) = Len(Msgs(b)) THEN {} ELSE {"lost"})
Init == tr \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE
Step == ~rejected /\ l <= Len(Traces[tr].runs) /\ Broken(Ev) = {} /\ l' = l + 1 /\ UNCHANGED <<tr, rejected>>
Reject == /\ ~rejected /\ l <= Len(Traces[tr].runs) /\ Broken(Ev) # {}
          /\ PrintT(<<"REJECT", tr, l, Broken(Ev)>>) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Done == ~rejected /\ l = Len(Traces[tr].runs) + 1 /\ TLCSet(1, TLCGet(1) + 1) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Next == Step \/ Reject \/ Done
Spec == Init /\ [][Next]_<<tr, l, rejected>>
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"ACCEPTED", TLCGet(1), "OF", Len(Traces)>>)
=============================================================================
