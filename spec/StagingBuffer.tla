--------------------------- MODULE StagingBuffer ---------------------------
(***************************************************************************)
(* The per-thread staging buffer at the granularity of its memory          *)
(* accesses: a ring of N bytes shared by one producer and one consumer     *)
(* without locks.  Stores of the producer to the ring and to endp may      *)
(* become visible late and out of order (Weak); the store fences before    *)
(* publishing prodPos wait for them (Fenced).                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N, Sizes, MaxRecs, Weak, Fenced

VARIABLES
    prodPos, endp, minFree, consPos,   \* the shared positions (minFree is private to the producer)
    mem,                               \* mem[i]: number (in the byte stream) of the byte stored at i, 0 if none
    pend,                              \* producer stores not yet visible
    ppc, cached, n, wr, sent, recs,    \* producer
    cpc, cprod, av, got, seen, recEnd  \* consumer; recEnd: ends of records in the stream
vars == <<prodPos, endp, minFree, consPos, mem, pend, ppc, cached, n, wr, sent, recs, cpc, cprod, av, got, seen, recEnd>>
P == <<prodPos, endp, minFree, mem, pend, ppc, cached, n, wr, sent, recs, recEnd>>
C == <<consPos, cpc, cprod, av, got, seen>>

Init ==
    /\ prodPos = 0 /\ endp = N /\ minFree = N /\ consPos = 0
    /\ mem = [i \in 0..N-1 |-> 0] /\ pend = {}
    /\ ppc = "idle" /\ cached = 0 /\ n = 0 /\ wr = 0 /\ sent = 0 /\ recs = 0
    /\ cpc = "idle" /\ cprod = 0 /\ av = 0 /\ got = 0 /\ seen = 0 /\ recEnd = {0}

EndP == N + 1      \* the location of endp
(* Producer ---------------------------------------------------------------*)
Store(loc, v) == IF Weak THEN pend' = pend \cup {<<loc, v>>} /\ UNCHANGED <<mem, endp>>
                 ELSE /\ pend' = pend
                      /\ IF loc = EndP THEN endp' = v /\ mem' = mem ELSE mem' = [mem EXCEPT ![loc] = v] /\ endp' = endp
Flush == /\ \E s \in pend :
              /\ ~\E s2 \in pend : s2[1] = s[1] /\ s2[2] < s[2] /\ s[1] # EndP      \* same location: in order
              /\ pend' = pend \ {s}
              /\ IF s[1] = EndP THEN endp' = s[2] /\ mem' = mem ELSE mem' = [mem EXCEPT ![s[1]] = s[2]] /\ endp' = endp
         /\ UNCHANGED <<prodPos, minFree, ppc, cached, n, wr, sent, recs, recEnd, C>>
Fence == Fenced => pend = {}
PReserve(k) ==
    /\ ppc = "idle" /\ recs < MaxRecs
    /\ n' = k /\ wr' = 0 /\ recs' = recs + 1
    /\ ppc' = IF k < minFree THEN "write" ELSE "load"
    /\ UNCHANGED <<prodPos, endp, minFree, mem, pend, cached, sent, recEnd, C>>
PLoad ==
    /\ ppc = "load" /\ cached' = consPos /\ ppc' = "decide"
    /\ UNCHANGED <<prodPos, endp, minFree, mem, pend, n, wr, sent, recs, recEnd, C>>
PDecide ==
    /\ ppc = "decide"
    /\ IF cached <= prodPos
       THEN /\ minFree' = N - prodPos
            /\ IF N - prodPos > n THEN ppc' = "write" /\ UNCHANGED <<pend, mem, endp>>
               ELSE Store(EndP, prodPos) /\ ppc' = IF cached # 0 THEN "wrap" ELSE "load"
       ELSE /\ minFree' = cached - prodPos
            /\ ppc' = IF cached - prodPos > n THEN "write" ELSE "load"
            /\ UNCHANGED <<pend, mem, endp>>
    /\ UNCHANGED <<prodPos, cached, n, wr, sent, recs, recEnd, C>>
PWrap ==
    /\ ppc = "wrap" /\ Fence
    /\ prodPos' = 0 /\ minFree' = cached
    /\ ppc' = IF cached > n THEN "write" ELSE "load"
    /\ UNCHANGED <<endp, mem, pend, cached, n, wr, sent, recs, recEnd, C>>
PWrite ==
    /\ ppc = "write" /\ wr < n
    /\ Store(prodPos + wr, sent + wr + 1) /\ wr' = wr + 1
    /\ UNCHANGED <<prodPos, minFree, ppc, cached, n, sent, recs, recEnd, C>>
PCommit ==
    /\ ppc = "write" /\ wr = n /\ Fence
    /\ minFree' = minFree - n /\ prodPos' = prodPos + n /\ sent' = sent + n
    /\ recEnd' = recEnd \cup {sent + n} /\ ppc' = "idle"
    /\ UNCHANGED <<endp, mem, pend, cached, n, wr, recs, C>>

(* Consumer ---------------------------------------------------------------*)
CPeek ==
    /\ cpc = "idle" /\ cprod' = prodPos /\ seen' = sent /\ cpc' = "cmp"
    /\ UNCHANGED <<P, consPos, av, got>>
CCmp ==
    /\ cpc = "cmp"
    /\ IF cprod < consPos THEN cpc' = "end" /\ av' = av ELSE cpc' = "have" /\ av' = cprod - consPos
    /\ UNCHANGED <<P, consPos, cprod, got, seen>>
CEnd ==
    /\ cpc = "end"
    /\ IF endp > consPos THEN av' = endp - consPos /\ cpc' = "have" ELSE av' = av /\ cpc' = "roll"
    /\ UNCHANGED <<P, consPos, cprod, got, seen>>
CRoll ==
    /\ cpc = "roll" /\ consPos' = 0 /\ av' = cprod /\ cpc' = "have"
    /\ UNCHANGED <<P, cprod, got, seen>>
CConsume ==
    /\ cpc = "have"
    /\ IF av = 0 THEN cpc' = "idle" /\ UNCHANGED <<consPos, got, av>>
       ELSE \E k \in 1..av : /\ consPos' = consPos + k /\ got' = got + k /\ av' = av - k
                             /\ cpc' = IF k = av THEN "idle" ELSE "have"
    /\ UNCHANGED <<P, cprod, seen>>

Producer == (\E k \in Sizes : PReserve(k)) \/ PLoad \/ PDecide \/ PWrap \/ PWrite \/ PCommit
Consumer == CPeek \/ CCmp \/ CEnd \/ CRoll \/ CConsume
Next == Producer \/ Consumer \/ Flush
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Producer) /\ WF_vars(Consumer) /\ WF_vars(Flush)

(* Properties ---------------------------------------------------------------*)
\* what the consumer holds is exactly the next bytes of the stream, and stays so until released
Fifo == cpc = "have" => \A j \in 0..av-1 : consPos + j \in 0..N-1 /\ mem[consPos + j] = got + j + 1
\* it ends with a complete, committed record
WholeRecords == cpc = "have" => got + av <= sent /\ got + av \in recEnd
\* it is not empty if something had been committed before the peek
NoFalseEmpty == cpc = "have" /\ av = 0 => seen <= got
\* a granted reservation stays inside the ring and off the unreleased bytes (as stored or as about to be stored)
Inside == ppc = "write" => prodPos + n <= N
NoOverlap == ppc = "write" => \A i \in 0..N-1 : (mem[i] > got /\ mem[i] <= sent) => i \notin prodPos..prodPos+n-1
\* everything unreleased is still stored somewhere
Lossless == pend = {} => \A b \in got+1..sent : \E i \in 0..N-1 : mem[i] = b
Progress == <>(recs = MaxRecs /\ ppc = "idle" /\ got = sent)
=============================================================================
