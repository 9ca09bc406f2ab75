----------------------------- MODULE TracePrint -----------------------------
(* Messages that real programs logged and the real decompressor returned, against Printf. *)
EXTENDS Printf, TLC, Json, IOUtils
VARIABLES tr, l, rejected
v == <<tr, l, rejected>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr][l]
If(c, x) == IF c THEN {} ELSE {x}
LessEq(a, b) == \/ a = b \/ \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* a string argument comes back whole, or at least as much of it as is printed
Value(i, a, x) ==
  CASE i.c = "s" /\ i.len = "" -> IF i.p = -1 THEN x.s = a.s ELSE Prefix(x.s, a.s)
    [] i.c = "s" -> IF i.p = -1 THEN x.u = a.u ELSE Prefix(x.u, a.u)
    [] i.c \in Floating -> IF i.len = "L" THEN TRUE ELSE x.i = a.bits
    [] OTHER -> x.i = ValueOf(i, a.i)
ValuesRight(e) ==
  LET cs == Convs(e.items) as == Values(e.items, e.args)
  IN If(e.nargs = Len(cs), "arguments")
     \cup (IF e.nargs = Len(cs) /\ Len(e.vals) = Len(cs) THEN If(\A n \in DOMAIN cs : Value(cs[n], as[n], e.vals[n]), "values") ELSE {"values"})
Broken(e) ==
  CASE e.op = "oracle" -> If(Render(e.items, e.args) = e.want, "ORACLE")
    [] e.op = "text" -> If(e.header, "header") \cup If(e.got = Render(e.items, e.args), "text")
    [] e.op = "silent" -> {}
    [] e.op = "values" -> If(e.valid, "valid") \cup ValuesRight(e) \cup If(LessEq(e.before, e.at) /\ LessEq(e.at, e.after), "timestamp")
    [] e.op = "log" -> If(e.status = 0, "program") \cup If(e.reader = 0, "reader") \cup If(e.logged = e.got, "count")
                       \cup If((\A n \in DOMAIN e.ids : Len(e.ids[n]) = 1) /\ (\A n, m \in DOMAIN e.ids : n # m => e.ids[n] # e.ids[m]), "ids")
                       \cup If(e.ends = <<<<0, 0, 0>>, <<0, 0>>, <<0, 0>>>>, "end")
    [] e.op = "lost" -> {"lost"}
    [] OTHER -> {"crash"}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE
Step == ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) = {} /\ l' = l + 1 /\ UNCHANGED <<tr, rejected>>
Reject == ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) # {} /\ PrintT(<<"REJECT", tr, l, Broken(Ev)>>) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Done == ~rejected /\ l = Len(Traces[tr]) + 1 /\ TLCSet(1, TLCGet(1) + 1) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Next == Step \/ Reject \/ Done
Spec == Init /\ [][Next]_v
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"ACCEPTED", TLCGet(1), "OF", Len(Traces)>>)
=============================================================================
