--------------------------- MODULE TraceTimeTrace ---------------------------
(* Judges what the real TimeTrace prints. *)
EXTENDS TimeTrace, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, hs, rejected
v == <<tr, l, hs, rejected>>
Ev == Traces[tr][l]
Cap == Traces[tr][1].cap       \* slots of a buffer
K == Traces[tr][1].k           \* tenths of a nanosecond per tick
Bufs == {1, 2, 3, 4, 9}
If(c, x) == IF c THEN {} ELSE {x}

Ys == "yyyyyyyyyy"
Y100 == Ys \o Ys \o Ys \o Ys \o Ys \o Ys \o Ys \o Ys \o Ys \o Ys
Y1100 == Y100 \o Y100 \o Y100 \o Y100 \o Y100 \o Y100 \o Y100 \o Y100 \o Y100 \o Y100 \o Y100
Name(b, i) == ToString(b) \o "." \o ToString(i)
Pad5(s) == CASE Len(s) = 1 -> "    " \o s [] Len(s) = 2 -> "   " \o s [] Len(s) = 3 -> "  " \o s [] Len(s) = 4 -> " " \o s [] OTHER -> s
(* what follows the name of the event; messages end after 999 characters *)
Rest(f, b, i) ==
    CASE f = 0 -> ""
      [] f = 1 -> " and " \o ToString(i + 1) \o " of 7"
      [] f = 2 -> " 100% [" \o Pad5(ToString(i)) \o "]"
      [] f = 3 -> " " \o SubSeq(Y1100, 1, 998 - Len(Name(b, i)))
      [] f = 4 -> " 4294967295 -1"
      [] f = 5 -> " 00"

Lines(e) == [i \in 1..Len(e.lines) |-> <<e.lines[i][1], e.lines[i][2],
                IF e.lines[i][1] \in DOMAIN hs /\ e.lines[i][2] \in 1..CountOf(hs[e.lines[i][1]])
                THEN Stamp(hs[e.lines[i][1]], e.lines[i][2]) ELSE 0>>]
Considered(b) == IF b = 9 THEN [x \in {9} |-> hs[9]] ELSE [x \in {1, 2, 3, 4} |-> hs[x]]
Printed(e) ==
    LET h == Considered(e.b) out == Lines(e) s == Start(h, Cap) IN
    IF e.bad > 0 THEN {"form"}
    ELSE IF ~Complete(h, Cap, out) THEN {"events"}
    ELSE If(InTimeOrder(out), "order")
         \cup If(e.none = (Len(out) = 0), "none")
         \cup If(\A i \in 1..Len(out) : /\ e.lines[i][3] = K * (out[i][3] - s)
                                        /\ e.lines[i][4] = e.lines[i][3] - (IF i = 1 THEN 0 ELSE e.lines[i - 1][3]), "times")
         \cup If(\A i \in 1..Len(out) : e.lines[i][5] = Rest(Locate(h[out[i][1]], out[i][2])[1].f, out[i][1], out[i][2]), "text")
Broken(e) ==
    CASE e.op \in {"get", "print", "stdout", "during"} -> Printed(e)
      [] e.op = "died" -> {"crash"}
      [] OTHER -> {}
Take(e) ==
    CASE e.op \in {"rec", "tsc"} -> hs' = [hs EXCEPT ![e.b] = Append(@, [f |-> e.f, n |-> e.n, t |-> e.t, d |-> e.d])]
      [] e.op = "reset" -> hs' = [b \in Bufs |-> IF (b = 9) = (e.b = 9) THEN <<>> ELSE hs[b]]
      [] OTHER -> UNCHANGED hs
Init == tr \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE /\ hs = [b \in Bufs |-> <<>>]
Step == ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) = {} /\ Take(Ev) /\ l' = l + 1 /\ UNCHANGED <<tr, rejected>>
Reject == ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) # {} /\ PrintT(<<"REJECT", tr, l, Broken(Ev)>>) /\ rejected' = TRUE /\ UNCHANGED <<tr, l, hs>>
Done == ~rejected /\ l = Len(Traces[tr]) + 1 /\ TLCSet(1, TLCGet(1) + 1) /\ rejected' = TRUE /\ UNCHANGED <<tr, l, hs>>
Next == Step \/ Reject \/ Done
Spec == Init /\ [][Next]_v
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"ACCEPTED", TLCGet(1), "OF", Len(Traces)>>)
=============================================================================
