------------------------------ MODULE ChronoGen ------------------------------
(* Generates files in which no message is older than one that appears three or more scan passes earlier and   *)
(* no thread's times decrease, with times as close to that limit as possible: a message of pass p has a time   *)
(* between p and p + 3.                                                                                       *)
EXTENDS LogFile, TLC, Json
CONSTANTS MaxParts, MinParts, Threads, MaxMsgs, MaxExec
VARIABLES parts, pass, last, done
Init == parts = <<[k |-> "ck", n |-> 2]>> /\ pass = 0 /\ last = [t \in Threads |-> 0] /\ done = FALSE
More == ~done /\ Len(parts) < MaxParts
NonDecr(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Ext == /\ More
       /\ \E t \in Threads, w \in BOOLEAN, n \in 0..MaxMsgs :
            LET p == IF w THEN pass + 1 ELSE pass
                ts == {x \in p..(p + 3) : x >= last[t]}
            IN  \E f \in {g \in [1..n -> ts] : NonDecr(g)} :
                    /\ parts' = Append(parts, [k |-> "ext", t |-> t, w |-> w, m |-> [i \in 1..n |-> <<i % 2, f[i]>>]])
                    /\ pass' = p /\ last' = [last EXCEPT ![t] = IF n = 0 THEN @ ELSE f[n]]
       /\ UNCHANGED done
Ck == /\ More /\ Cardinality({i \in 1..Len(parts) : parts[i].k = "ck"}) < MaxExec
      /\ parts' = Append(parts, [k |-> "ck", n |-> 2]) /\ pass' = 0 /\ last' = [t \in Threads |-> 0] /\ UNCHANGED done
Stop == /\ ~done /\ Len(parts) >= MinParts /\ done' = TRUE /\ PrintT(ToJson(parts)) /\ UNCHANGED <<parts, pass, last>>
Next == Ext \/ Ck \/ Stop
GenOk == WellFormed(parts) /\ \A e \in 0..MaxExec : Steady(Msgs(parts), e) /\ NearlySorted(Msgs(parts), e)
=============================================================================
