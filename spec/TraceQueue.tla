---------------------------- MODULE TraceQueue ----------------------------
(***************************************************************************)
(* The staging buffer as its users see it, and validation of recorded      *)
(* executions of the real one against it.  Nothing here depends on how the *)
(* ring is implemented except the documented placement rule used in        *)
(* "refused" (a reservation may be refused only if neither the space after *)
(* the last record nor the space before the consumer is larger than it).   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

N == atoi(IOEnv.RING)
Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES
    stream,   \* committed bytes: sequence of <<offset, value>>
    ends,     \* positions in the stream at which a record ends
    rel,      \* number of bytes released (consume called)
    vis,      \* number of bytes whose commit has returned
    resv,     \* granted reservation [off, n], n = 0: none
    pos,      \* end of the last committed record
    failed,   \* a reservation has been refused since the last granted one
    cpos,     \* consumer position if it is certain, else -1
    visPeek,  \* vis when the current peek was called
    tr, l, rejected
qv == <<stream, ends, rel, vis, resv, pos, failed, cpos, visPeek>>
tv == <<qv, tr, l, rejected>>
Ev == Traces[tr][l]

QInit == stream = <<>> /\ ends = {0} /\ rel = 0 /\ vis = 0 /\ resv = [off |-> 0, n |-> 0] /\ pos = 0
         /\ failed = FALSE /\ cpos = 0 /\ visPeek = 0

Unreleased(off, n) == \A i \in rel+1..Len(stream) : stream[i][1] \notin off..off+n-1
\* contiguous space from producer position p with the consumer at c: after p, or from the start
Space(p, c) == IF c <= p THEN (IF N - p > c THEN N - p ELSE c) ELSE c - p
MayRefuse(n) == \/ cpos = -1
                \/ Space(pos, cpos) <= n
                \/ failed /\ (IF cpos = 0 THEN N ELSE cpos) <= n
Broken(e) ==
    CASE e.op = "rr" /\ e.off = -1 -> IF MayRefuse(e.n) THEN {} ELSE {"refused"}
      [] e.op = "rr" /\ e.off # -1 -> (IF e.off >= 0 /\ e.off + e.n <= N THEN {} ELSE {"outside"})
                                 \cup (IF Unreleased(e.off, e.n) THEN {} ELSE {"overlap"})
      [] e.op = "pr" -> IF e.n = 0 THEN (IF visPeek <= rel THEN {} ELSE {"falseempty"})
                        ELSE IF rel + e.n > Len(stream) THEN {"uncommitted"}
                        ELSE (IF rel + e.n \in ends THEN {} ELSE {"partial"})
                        \cup (IF \A j \in 1..e.n : stream[rel + j][1] = e.off + j - 1 THEN {} ELSE {"place"})
                        \cup (IF \A j \in 1..e.n : stream[rel + j][2] = e.b[j] THEN {} ELSE {"data"})
      [] e.op = "rd" -> IF \A j \in 1..Len(e.b) : rel + j <= Len(stream) /\ stream[rel + j][2] = e.b[j] THEN {} ELSE {"data"}
      [] e.op = "end" -> IF rel = Len(stream) \/ e.partial THEN {} ELSE {"lost"}
      [] e.op \in {"bad", "crash", "uaf"} -> {e.k}
      [] OTHER -> {}
Take(e) ==
    CASE e.op = "rr" /\ e.off = -1 -> failed' = TRUE /\ UNCHANGED <<stream, ends, rel, vis, resv, pos, cpos, visPeek>>
      [] e.op = "rr" /\ e.off # -1 -> resv' = [off |-> e.off, n |-> e.n] /\ UNCHANGED <<stream, ends, rel, vis, pos, failed, cpos, visPeek>>
      [] e.op = "cc" ->       \* e.b: the bytes the producer wrote
            /\ stream' = stream \o [j \in 1..Len(e.b) |-> <<resv.off + j - 1, e.b[j]>>]
            /\ ends' = ends \cup {Len(stream) + Len(e.b)}
            /\ pos' = resv.off + Len(e.b) /\ failed' = FALSE
            /\ UNCHANGED <<rel, vis, resv, cpos, visPeek>>
      [] e.op = "cr" -> vis' = Len(stream) /\ UNCHANGED <<stream, ends, rel, resv, pos, failed, cpos, visPeek>>
      [] e.op = "pc" -> visPeek' = vis /\ cpos' = -1 /\ UNCHANGED <<stream, ends, rel, vis, resv, pos, failed>>
      [] e.op = "pr" -> cpos' = e.off /\ UNCHANGED <<stream, ends, rel, vis, resv, pos, failed, visPeek>>
      [] e.op = "xc" -> rel' = rel + e.n /\ cpos' = (IF cpos = -1 THEN -1 ELSE cpos + e.n)
                        /\ UNCHANGED <<stream, ends, vis, resv, pos, failed, visPeek>>
      [] OTHER -> UNCHANGED qv

TraceInit == QInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE
TraceStep == /\ ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) = {} /\ Take(Ev) /\ l' = l + 1 /\ UNCHANGED <<tr, rejected>>
TraceReject == /\ ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) # {}
               /\ PrintT(<<"REJECT", tr, l, Broken(Ev)>>) /\ rejected' = TRUE /\ UNCHANGED <<qv, tr, l>>
TraceDone == /\ ~rejected /\ l = Len(Traces[tr]) + 1 /\ TLCSet(1, TLCGet(1) + 1) /\ rejected' = TRUE /\ UNCHANGED <<qv, tr, l>>
TraceNext == TraceStep \/ TraceReject \/ TraceDone
TraceSpec == TraceInit /\ [][TraceNext]_tv
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"ACCEPTED", TLCGet(1), "OF", Len(Traces)>>)
=============================================================================
