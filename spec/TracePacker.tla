----------------------------- MODULE TracePacker -----------------------------
(* Executions of the real pack/unpack functions against the contract of Packer: what is read is what was *)
(* written, both positions end after the same bytes, no value takes more bytes than its type, nothing is  *)
(* written outside the room of the widest type, and a stream ends where its codes say.                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES tr, l, rejected
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr][l]
If(c, x) == IF c THEN {} ELSE {x}
Broken(e) ==
    CASE e.k = "one" -> If(e.out = e.in, "value") \cup If(e.len >= 1 /\ e.len <= e.sz, "size") \cup If(e.adv = e.len, "position")
                        \cup If(e.guard, "outside")
      [] e.k = "stream" -> If(e.outs = e.ins, "streamvalue") \cup If(e.end = e.total, "streamend")
      [] e.k = "sweep" -> If(e.bad = 0, "sweep")
      [] OTHER -> {e.k}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE
Step == ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) = {} /\ l' = l + 1 /\ UNCHANGED <<tr, rejected>>
Reject == /\ ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) # {}
          /\ PrintT(<<"REJECT", tr, l, Broken(Ev)>>) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Done == ~rejected /\ l = Len(Traces[tr]) + 1 /\ TLCSet(1, TLCGet(1) + 1) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Next == Step \/ Reject \/ Done
Spec == Init /\ [][Next]_<<tr, l, rejected>>
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"ACCEPTED", TLCGet(1), "OF", Len(Traces)>>)
=============================================================================
