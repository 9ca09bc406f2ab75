---------------------------- MODULE TimeTraceGen ----------------------------
(* Generates operations on time traces (TLC simulation): recording runs of   *)
(* events in threads 1-4 and in a free-standing buffer 9, printing, reset.   *)
EXTENDS TimeTrace, TLC, Json
CONSTANTS Steps, Sizes
VARIABLES ops, now, gone
vars == <<ops, now, gone>>
Bufs == {1, 2, 3, 4, 9}
Pick(S) == RandomElement(S)
Gap(i) == Pick({0, 0, 1, 2, 5, 10, 100, 1000})
Step(i) == Pick({0, 0, 1, 1, 2, 3, 7})
Run(b, i) == [op |-> Pick({"rec", "rec", "rec", "tsc"}), b |-> b, f |-> Pick(0..5), n |-> Pick(Sizes), t |-> now[b] + Gap(i), d |-> Step(i)]
Init == ops = <<>> /\ now = [b \in Bufs |-> 1] /\ gone = {}
Add(e) == ops' = Append(ops, e)
Rec == \E b \in {Pick(Bufs \ gone)} : \E e \in {Run(b, 1)} :
    /\ Add(e) /\ now' = [now EXCEPT ![b] = e.t + (e.n - 1) * e.d] /\ UNCHANGED gone
(* events recorded while a trace is being printed, then everything is discarded *)
During == \E b \in {Pick({1, 2} \ gone)} : \E e \in {[Run(b, 1) EXCEPT !.op = "during", !.n = Pick({1, 10, 3000})]} :
    /\ ops' = ops \o <<[e EXCEPT !.op = "rec", !.n = 9000, !.f = 1, !.d = 1], [e EXCEPT !.t = @ + 9000], [op |-> "reset", b |-> 0]>>
    /\ now' = [now EXCEPT ![b] = e.t + 9000 + (e.n - 1) * e.d] /\ UNCHANGED gone
Other == \E e \in {[op |-> Pick({"get", "get", "get", "get", "print", "print", "stdout", "stdout", "noprint"}), b |-> Pick({0, 0, 0, 9})]} : Add(e) /\ UNCHANGED <<now, gone>>
Reset == Add([op |-> "reset", b |-> Pick({0, 9})]) /\ UNCHANGED <<now, gone>>
Touch == \E b \in {Pick({1, 4})} : Add([op |-> "touch", b |-> b]) /\ UNCHANGED <<now, gone>>
Finish == PrintT(ToJson([ops |-> ops])) /\ ops' = Append(ops, [op |-> "done", b |-> 0]) /\ UNCHANGED <<now, gone>>
Next ==
    \/ /\ Len(ops) < Steps
       /\ \E w \in {Pick(1..24)} :
            CASE w <= 13 -> Rec [] w <= 18 -> Other [] w = 19 -> Reset [] w = 20 -> (IF gone = {2, 3} THEN Touch ELSE \E b \in {CHOOSE x \in {2, 3} \ gone : TRUE} : Add([op |-> "end", b |-> b]) /\ gone' = gone \cup {b} /\ UNCHANGED now)
              [] w = 21 -> Touch [] w = 22 /\ Sizes # {1} -> During [] OTHER -> Rec
    \/ /\ Len(ops) >= Steps /\ ops[Len(ops)].op # "done" /\ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
