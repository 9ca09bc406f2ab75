------------------------------ MODULE QueueGen ------------------------------
(***************************************************************************)
(* Sequential behaviours of the staging buffer: every state of the ring    *)
(* and every operation in it.  TLC prints each transition; the checker     *)
(* turns the graph into walks that cover every transition and replays them *)
(* into the real buffer.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS N, MaxSize
VARIABLES p, e, m, c, r, av
vars == <<p, e, m, c, r, av>>
Init == p = 0 /\ e = N /\ m = N /\ c = 0 /\ r = 0 /\ av = 0
Edge(op, k) == PrintT(<<"E", vars, op, k, vars'>>)
Reserve(k) ==
    /\ r = 0
    /\ IF k < m THEN r' = k /\ UNCHANGED <<p, e, m, c, av>>
       ELSE IF c <= p
            THEN IF N - p > k THEN m' = N - p /\ r' = k /\ UNCHANGED <<p, e, c, av>>
                 ELSE /\ e' = p
                      /\ IF c # 0 THEN p' = 0 /\ m' = c /\ r' = (IF c > k THEN k ELSE 0) ELSE p' = p /\ m' = N - p /\ r' = 0
                      /\ UNCHANGED <<c, av>>
            ELSE /\ m' = c - p /\ r' = (IF c - p > k THEN k ELSE 0) /\ UNCHANGED <<p, e, c, av>>
    /\ Edge("R", k)
Commit(k) == r > 0 /\ k <= r /\ p' = p + k /\ m' = m - k /\ r' = 0 /\ UNCHANGED <<e, c, av>> /\ Edge("C", k)
Peek ==
    /\ IF p < c THEN IF e > c THEN av' = e - c /\ c' = c ELSE c' = 0 /\ av' = p
       ELSE av' = p - c /\ c' = c
    /\ UNCHANGED <<p, e, m, r>> /\ Edge("P", 0)
Consume(k) == k <= av /\ c' = c + k /\ av' = av - k /\ UNCHANGED <<p, e, m, r>> /\ Edge("X", k)
Next == (\E k \in 1..MaxSize : Reserve(k) \/ Commit(k)) \/ Peek \/ (\E k \in 1..N : Consume(k))
Spec == Init /\ [][Next]_vars
=============================================================================
