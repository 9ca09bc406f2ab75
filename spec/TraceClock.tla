------------------------------ MODULE TraceClock ------------------------------
(* Timestamps the real decoder returned and times it rendered, against Clock. *)
EXTENDS Clock, TLC, Json, IOUtils
VARIABLES tr, l, rejected
v == <<tr, l, rejected>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr][l]
If(c, x) == IF c THEN {} ELSE {x}
\* a before b, as instants in nanoseconds split into [s, ns] (s below 2^31)
NsLessEq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Broken(e) ==
  CASE e.op = "seq" -> If(Len(e.got) = Len(e.sent), "count") \cup If(e.got = e.sent, "timestamp")
    [] e.op = "show" -> If(RightTime(e.got, e.digits, Plus(e.ref, e.off), e.zone, Slack(e.rate, e.off.ns, e.x) + Tolerance(e.off)), "rendering")
    \* logged between the two readings of the clock, by the thread's own order
    [] e.op = "live" -> If(LessEq(e.before, e.at) /\ LessEq(e.at, e.after), "recorded")
                        \cup If(e.digits = 9, "rendering")
                        \cup If(NsLessEq(e.low, e.shown) /\ NsLessEq(e.shown, e.high), "wallclock")
    [] e.op = "count" -> If(e.got = e.want, "count")
    [] OTHER -> {"crash"}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE
Step == ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) = {} /\ l' = l + 1 /\ UNCHANGED <<tr, rejected>>
Reject == ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) # {} /\ PrintT(<<"REJECT", tr, l, Broken(Ev)>>) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Done == ~rejected /\ l = Len(Traces[tr]) + 1 /\ TLCSet(1, TLCGet(1) + 1) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Next == Step \/ Reject \/ Done
Spec == Init /\ [][Next]_v
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"ACCEPTED", TLCGet(1), "OF", Len(Traces)>>)
=============================================================================
