------------------------------- MODULE LogFile -------------------------------
(* What a log file means.  A file is a sequence of parts in file order:                                  *)
(*   [k |-> "ck",  n |-> entries]          start of an execution, with a complete dictionary of n sites   *)
(*                                         (n = 0: sites are described by fragments that follow)         *)
(*   [k |-> "dic", n |-> entries]          a dictionary fragment describing n more sites                  *)
(*   [k |-> "ext", t |-> thread, w |-> starts a new scan pass, m |-> sequence of <<site, time>>]          *)
(*   [k |-> "pad", n |-> bytes]            zero bytes                                                     *)
(* Messages are numbered in file order: u = 1, 2, ...                                                     *)
EXTENDS Integers, Sequences, FiniteSets

\* messages of a file, in file order: u number, e execution (from 0), t thread, s site, ts time, p scan pass within the execution
Msgs(parts) ==
    LET RECURSIVE F(_, _, _, _)
        F(i, e, p, out) ==
          IF i > Len(parts) THEN out
          ELSE LET q == parts[i] IN
               CASE q.k = "ck" -> F(i + 1, e + 1, 0, out)
                 [] q.k = "ext" -> LET p2 == IF q.w THEN p + 1 ELSE p IN
                      F(i + 1, e, p2, out \o [j \in 1..Len(q.m) |->
                          [u |-> Len(out) + j, e |-> e, t |-> q.t, s |-> q.m[j][1], ts |-> q.m[j][2], p |-> p2]])
                 [] OTHER -> F(i + 1, e, p, out)
    IN F(1, -1, 0, <<>>)

\* the sites used in an execution are described before they are used
WellFormed(parts) ==
    /\ Len(parts) > 0 /\ parts[1].k = "ck"
    /\ LET RECURSIVE G(_, _)
           G(i, n) == IF i > Len(parts) THEN TRUE
                      ELSE CASE parts[i].k = "ck" -> G(i + 1, parts[i].n)
                             [] parts[i].k = "dic" -> G(i + 1, n + parts[i].n)
                             [] parts[i].k = "ext" -> (\A j \in 1..Len(parts[i].m) : parts[i].m[j][1] < n) /\ G(i + 1, n)
                             [] OTHER -> G(i + 1, n)
       IN G(1, 0)

\* --- decompression in file order
InFileOrder(out, msgs) == out = [i \in 1..Len(msgs) |-> msgs[i].u]

\* --- chronological decompression
Executions(msgs) == {msgs[i].e : i \in 1..Len(msgs)}
ThreadsOf(msgs, e) == {msgs[i].t : i \in {j \in 1..Len(msgs) : msgs[j].e = e}}
OfThread(msgs, e, t) == SelectSeq(msgs, LAMBDA m : m.e = e /\ m.t = t)
SteadyThread(msgs, e, t) == LET s == OfThread(msgs, e, t) IN \A i \in 1..(Len(s) - 1) : s[i].ts <= s[i + 1].ts
Steady(msgs, e) == \A t \in ThreadsOf(msgs, e) : SteadyThread(msgs, e, t)
NearlySorted(msgs, e) == LET s == SelectSeq(msgs, LAMBDA m : m.e = e)
                         IN \A i \in 1..Len(s) : \A j \in (i + 1)..Len(s) : s[j].p >= s[i].p + 3 => s[i].ts <= s[j].ts
SameMessages(out, msgs) == Len(out) = Len(msgs) /\ {out[i] : i \in 1..Len(out)} = {msgs[i].u : i \in 1..Len(msgs)}
ExecOrder(out, msgs) == \A i \in 1..(Len(out) - 1) : msgs[out[i]].e <= msgs[out[i + 1]].e
ThreadOrder(out, msgs) ==
    \A e \in Executions(msgs) : \A t \in ThreadsOf(msgs, e) :
        SteadyThread(msgs, e, t) =>
            LET s == SelectSeq(out, LAMBDA u : msgs[u].e = e /\ msgs[u].t = t)
            IN \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Sorted(out, msgs) ==
    \A e \in Executions(msgs) :
        (Steady(msgs, e) /\ NearlySorted(msgs, e)) =>
            LET s == SelectSeq(out, LAMBDA u : msgs[u].e = e)
            IN \A i \in 1..(Len(s) - 1) : msgs[s[i]].ts <= msgs[s[i + 1]].ts
Chronological(out, msgs) == SameMessages(out, msgs) /\ ExecOrder(out, msgs) /\ ThreadOrder(out, msgs) /\ Sorted(out, msgs)
=============================================================================
