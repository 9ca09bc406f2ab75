---------------------------- MODULE TraceSource ----------------------------
(* Judges runs of generated programs: what they printed and what their log   *)
(* contains is what Source says.                                             *)
EXTENDS Source, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, rejected
v == <<tr, l, rejected>>
Ev == Traces[tr][l]

Check(ev) ==
    CASE ev.op = "build" -> IF ev.ok THEN {} ELSE {"BUILD"}
      [] ev.op = "run" -> (IF ev.status # 0 THEN {"STATUS"} ELSE {}) \cup (IF ev.said # Said(ev.g) THEN {"BEHAVIOUR"} ELSE {})
      [] ev.op = "log" ->
            LET want == Logged(ev.g)
                k == IF Len(want) < Len(ev.got) THEN Len(want) ELSE Len(ev.got)
                \* __LINE__ is any line of the statement
                Line(i) == IF ev.front = "cpp17" THEN ev.got[i].line \in want[i].line..want[i].to ELSE ev.got[i].line = want[i].line
                bad == {i \in 1..k : ~Line(i) \/ [want[i] EXCEPT !.line = 0, !.to = 0] # [ev.got[i] EXCEPT !.line = 0] @@ [to |-> 0]}
                first == CHOOSE i \in bad : \A j \in bad : i <= j
                Show(m) == m.file \o ":" \o ToString(m.line) \o " " \o m.l \o ": " \o m.t
                Diff(f(_)) == \E i \in 1..k : f(want[i]) # f(ev.got[i])
            IN (IF ev.status # 0 THEN {"DECODER"} ELSE {})
               \cup (IF Len(want) # Len(ev.got) THEN {"COUNT"} ELSE {})
               \cup (IF Diff(LAMBDA m : m.t) THEN {"TEXT"} ELSE {})
               \cup (IF \E i \in 1..k : ~Line(i) THEN {"LINE"} ELSE {})
               \cup (IF Diff(LAMBDA m : m.file) THEN {"FILE"} ELSE {})
               \cup (IF Diff(LAMBDA m : m.l) THEN {"SEVERITY"} ELSE {})
               \cup (IF bad # {} THEN {"(message " \o ToString(first) \o ": " \o Show(ev.got[first]) \o " instead of " \o Show(want[first]) \o ")"} ELSE {})

Broken == Check(Ev)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE
Step == ~rejected /\ l <= Len(Traces[tr]) /\ Broken = {} /\ l' = l + 1 /\ UNCHANGED <<tr, rejected>>
Reject == ~rejected /\ l <= Len(Traces[tr]) /\ Broken # {} /\ PrintT(<<"REJECT", tr, l, Broken>>) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Done == ~rejected /\ l = Len(Traces[tr]) + 1 /\ TLCSet(1, TLCGet(1) + 1) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Next == Step \/ Reject \/ Done
Spec == Init /\ [][Next]_v
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"ACCEPTED", TLCGet(1), "OF", Len(Traces)>>)
=============================================================================
