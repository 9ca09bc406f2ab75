----------------------------- MODULE TraceFormat -----------------------------
(* What the three analyses found in format strings, against Format. *)
EXTENDS Format, TLC, Json, IOUtils
VARIABLES tr, l, rejected
v == <<tr, l, rejected>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev == Traces[tr][l]
If(c, x) == IF c THEN {} ELSE {x}
Invalid == -6
\* every fragment holds one conversion (or none does, and there is one fragment); together they are the text
Fragments(fs, items, text) ==
  LET cs == Convs(items)
  IN If(Join([n \in DOMAIN fs |-> fs[n].b]) = text, "text")
     \cup If(Len(fs) = Max(1, Len(cs)), "fragments")
     \cup (IF Len(fs) = Len(cs) THEN If(\A n \in DOMAIN fs : Convs(Scan(fs[n].b)) = <<cs[n]>>, "split") ELSE {})
Cpp17(e, items) ==
  IF ~e.ran THEN {}
  ELSE IF e.threw THEN {"refused"}
  ELSE If(e.count = Len(Params(items)), "count") \cup If(e.nibbles = Nibbles(items), "nibbles") \cup If(e.params = Append(Params(items), Invalid), "params")
Micro(e, items, text) ==
  IF ~e.micro THEN {"micro"}
  ELSE LET cs == Convs(items)
       IN Fragments(e.fragments, items, text)
          \cup If(e.mnibbles = Nibbles(items), "micronibbles")
          \cup If(e.rest >= 0, "sizes")
          \cup (IF cs = <<>> THEN If(\A n \in DOMAIN e.fragments : e.fragments[n].type = "NONE" /\ ~e.fragments[n].dw /\ ~e.fragments[n].dp, "type")
                ELSE IF Len(e.fragments) # Len(cs) THEN {}
                ELSE If(\A n \in DOMAIN cs : e.fragments[n].type = CType(cs[n]), "type")
                     \cup If(\A n \in DOMAIN cs : e.fragments[n].dw = (cs[n].w = -2), "width") \cup If(\A n \in DOMAIN cs : e.fragments[n].dp = (cs[n].p = -2), "precision"))
Script(e, items, text) ==
  IF e.error # "" THEN {"refused"}
  ELSE LET cs == Convs(items)
       IN Fragments(e.fragments, items, text)
          \cup (IF cs = <<>> THEN If(\A n \in DOMAIN e.fragments : e.fragments[n].type = "NONE", "type")
                ELSE IF Len(e.fragments) # Len(cs) THEN {}
                ELSE If(\A n \in DOMAIN cs : e.fragments[n].type = CType(cs[n]), "type")
                     \cup If(\A n \in DOMAIN cs : e.fragments[n].w = cs[n].w, "width")
                     \cup If(\A n \in DOMAIN cs : e.fragments[n].p = (IF cs[n].p = -3 THEN 0 ELSE cs[n].p), "precision"))
Broken(e) ==
  LET items == Scan(e.text)
  IN CASE e.op = "cpp17" -> Cpp17(e, items) [] e.op = "micro" -> Micro(e, items, e.text) [] e.op = "script" -> Script(e, items, e.text) [] OTHER -> {"crash"}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE
Step == ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) = {} /\ l' = l + 1 /\ UNCHANGED <<tr, rejected>>
Reject == ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) # {} /\ PrintT(<<"REJECT", tr, l, Broken(Ev)>>) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Done == ~rejected /\ l = Len(Traces[tr]) + 1 /\ TLCSet(1, TLCGet(1) + 1) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Next == Step \/ Reject \/ Done
Spec == Init /\ [][Next]_v
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"ACCEPTED", TLCGet(1), "OF", Len(Traces)>>)
=============================================================================
