------------------------------- MODULE ToolGen -------------------------------
(* Generates the executions of a program (TLC simulation). *)
EXTENDS Tool, Json
CONSTANTS MaxMsgs, MaxSegs, MaxExecs
VARIABLE log
Vals == {0, 1, -1, 2, -2, 7, 100, -100, 999, 65535, 65536, -65536, -65537, 1000000, 2147483647, -2147483647, -2147483647 - 1}
Rand(i) == [s |-> RandomElement({1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12}), v |-> RandomElement(Vals), d |-> 20 * RandomElement({1, 2, 3, 5, 8, 13, 30, 99, 100})]
Few(i) == [Rand(i) EXCEPT !.s = RandomElement({1, 5})]
Seg(i) == LET n == RandomElement(0..MaxMsgs) IN IF RandomElement(1..3) = 1 THEN [j \in 1..n |-> Few(j)] ELSE [j \in 1..n |-> Rand(j)]
Exec(i) == [j \in 1..RandomElement(1..MaxSegs) |-> Seg(j)]
Init == log = <<>>
Next == /\ log = <<>>
        /\ \E n \in {RandomElement(1..MaxExecs)} : \E l \in {[i \in 1..n |-> Exec(i)]} : log' = l
        /\ PrintT(ToJson([log |-> log', sites |-> Sites, levels |-> [s \in DOMAIN Sites |-> LevelOf(s)]]))
Spec == Init /\ [][Next]_log
=============================================================================
