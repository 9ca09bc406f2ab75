------------------------------ MODULE ChronoImpl ------------------------------
(* The chronological decompressor: extents are collected in stages (scan passes); once three complete       *)
(* stages are buffered the messages of all of them are merged by time until the oldest stage is used up.     *)
(* The file is chosen part by part as it is read; ghost variable parts remembers it.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, LogFile
CONSTANTS MaxParts, Times,
          Threads,             \* {0}: every extent belongs to another thread
          MaxMsgs, MaxExec,
          Stages,              \* stages buffered (3)
          FlagEnds,            \* TRUE: a flagged extent is the last of its stage (as originally), FALSE: the first of the next
          LateShift,           \* TRUE: an empty oldest stage is only noticed after another message (as originally)
          CheckFirstOnly,      \* TRUE: a new execution waits only for the oldest stage to be empty (as originally)
          SeqTies              \* TRUE: equal times in a stage are taken in file order
VARIABLES parts, msgs, eof, stage, nst, out, mode, curExec
cv == <<parts, msgs, eof, stage, nst, out, mode, curExec>>
\* stage: sequence (1..Stages+1) of sequences of fragments; a fragment is [x extent number, q sequence of message numbers left, e]
Init == /\ parts = <<[k |-> "ck", n |-> 1]>> /\ msgs = <<>> /\ eof = FALSE
        /\ stage = [i \in 1..(Stages + 1) |-> <<>>] /\ nst = 0 /\ out = <<>> /\ mode = "read" /\ curExec = 0
NonDecr(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Times2 == UNION {{s \in [1..n -> Times] : NonDecr(s)} : n \in 0..MaxMsgs}
Execs == Cardinality({i \in 1..Len(parts) : parts[i].k = "ck"})

\* end of a reading step: have enough stages been collected?
AfterRead(st, n) == mode' = IF n >= Stages THEN "merge" ELSE "read"
ReadExtent ==
    /\ mode = "read" /\ ~eof /\ Len(parts) < MaxParts
    /\ \E t \in (IF Threads = {0} THEN {Len(parts)} ELSE Threads), w \in BOOLEAN, ts \in Times2 :
        LET part == [k |-> "ext", t |-> t, w |-> w, m |-> [i \in 1..Len(ts) |-> <<0, ts[i]>>]]
            np == Append(parts, part)
            frag == [x |-> Len(np), q |-> [i \in 1..Len(ts) |-> Len(msgs) + i], e |-> curExec]
            n1 == IF w /\ ~FlagEnds THEN nst + 1 ELSE nst
            n2 == IF w /\ FlagEnds THEN nst + 1 ELSE n1
        IN  /\ parts' = np /\ msgs' = Msgs(np)
            /\ stage' = IF ts = <<>> THEN stage ELSE [stage EXCEPT ![n1 + 1] = Append(@, frag)]
            /\ nst' = n2
            /\ AfterRead(stage', n2)
    /\ UNCHANGED <<eof, out, curExec>>
\* everything that is buffered becomes a stage
Flushed == IF stage[nst + 1] # <<>> THEN nst + 1 ELSE nst
NothingBuffered == IF CheckFirstOnly THEN stage[1] = <<>> ELSE \A i \in 1..(Stages + 1) : stage[i] = <<>>
ReadCheckpoint ==
    /\ mode \in {"read", "readck"} /\ ~eof /\ Len(parts) < MaxParts /\ Execs < MaxExec
    /\ IF NothingBuffered
       THEN parts' = Append(parts, [k |-> "ck", n |-> 1]) /\ curExec' = curExec + 1 /\ mode' = "read" /\ UNCHANGED <<nst, stage, msgs, eof, out>>
       ELSE nst' = Flushed /\ mode' = "drain" /\ UNCHANGED <<parts, curExec, stage, msgs, eof, out>>
ReadEof ==
    /\ mode = "read" /\ ~eof /\ eof' = TRUE /\ nst' = Flushed /\ mode' = "drain"
    /\ UNCHANGED <<parts, msgs, stage, out, curExec>>
\* the fragments that may be at the front of a heap
Head1(f) == msgs[f.q[1]].ts
Fronts(i) == {j \in 1..Len(stage[i]) : /\ \A k \in 1..Len(stage[i]) : Head1(stage[i][j]) <= Head1(stage[i][k])
                                       /\ SeqTies => \A k \in 1..Len(stage[i]) : Head1(stage[i][k]) = Head1(stage[i][j]) => stage[i][j].x <= stage[i][k].x}
Shift(st, n) == [i \in 1..(Stages + 1) |-> IF i <= n THEN st[i + 1] ELSE <<>>]
Busy == {i \in 1..nst : stage[i] # <<>>}
MinTime(i) == LET j == CHOOSE j \in Fronts(i) : TRUE IN Head1(stage[i][j])
First == CHOOSE i \in Busy : \A k \in Busy : MinTime(i) < MinTime(k) \/ (MinTime(i) = MinTime(k) /\ i <= k)
Drop(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
EarlyShift == ~LateShift /\ nst > 0 /\ stage[1] = <<>>
MergeShift ==
    /\ mode \in {"merge", "drain"} /\ EarlyShift
    /\ stage' = Shift(stage, nst) /\ nst' = nst - 1 /\ mode' = (IF mode = "merge" THEN "read" ELSE mode)
    /\ UNCHANGED <<parts, msgs, eof, out, curExec>>
MergeEmit ==
    /\ mode \in {"merge", "drain"} /\ ~EarlyShift /\ Busy # {}
    /\ \E j \in Fronts(First) :
        LET f == stage[First][j]
            st == [stage EXCEPT ![First] = IF Len(f.q) = 1 THEN Drop(@, j) ELSE [@ EXCEPT ![j].q = Tail(@)]]
        IN  /\ out' = Append(out, f.q[1])
            \* a message decoded after the next execution's checkpoint has been read is garbled
            /\ Assert(f.e = curExec, <<"decoded with the dictionary of another execution", parts>>)
            /\ IF LateShift /\ st[1] = <<>>
               THEN stage' = Shift(st, nst) /\ nst' = nst - 1 /\ mode' = (IF mode = "merge" THEN "read" ELSE mode)
               ELSE stage' = st /\ UNCHANGED <<nst, mode>>
    /\ UNCHANGED <<parts, msgs, eof, curExec>>
MergeDone ==
    /\ mode \in {"merge", "drain"} /\ ~EarlyShift /\ Busy = {}
    /\ nst' = 0 /\ mode' = (IF eof THEN "done" ELSE IF mode = "drain" THEN "readck" ELSE "read")
    /\ UNCHANGED <<parts, msgs, eof, stage, out, curExec>>
Next == ReadExtent \/ ReadCheckpoint \/ ReadEof \/ MergeShift \/ MergeEmit \/ MergeDone
Spec == Init /\ [][Next]_cv
Correct == mode = "done" => Chronological(out, msgs)
InBounds == nst <= Stages
=============================================================================
