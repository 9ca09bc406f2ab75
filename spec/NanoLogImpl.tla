---------------------------- MODULE NanoLogImpl ----------------------------
(***************************************************************************)
(* The runtime as it is built: per-thread staging buffers, the list of     *)
(* buffers, call-site registration, the background thread's loop (one      *)
(* action per critical section), the double-buffered asynchronous write,   *)
(* the sync() state machine with notify_one and spurious wakeups, thread   *)
(* exit with buffer deletion, log-file switch and shutdown.                *)
(* Granularity: one message = one slot; bytes are in StagingBuffer.tla and *)
(* Encoder.tla.                                                            *)
(* Checked: refinement of NanoLogSpec (RefinesSpec), the invariants below, *)
(* and termination (every operation completes).                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Prog,       \* Prog[t]: sequence of operations of thread t: <<"log", site>>, <<"sync">>;
                \* thread 0 is main: it also has <<"join", t>> and <<"switch", f>>
    Cap,        \* staging buffer capacity (messages)
    OutCap,     \* output buffer capacity (entries)
    Chunk,      \* at most this many messages are encoded before space is released
    Spurious,   \* bound on spurious wakeups
    Eintr       \* (fault) aio_suspend may return early when TRUE and the code does not retry

Threads == DOMAIN Prog
SwitchOps(t) == {i \in 1..Len(Prog[t]) : Prog[t][i][1] = "switch"}
FileSet == {"compressedLog"} \cup UNION {{Prog[t][i][2] : i \in SwitchOps(t)} : t \in Threads}

VARIABLES
    ip,        \* ip[t]: next operation of t
    st,        \* st[t]: idle, reg, resv, sync0, wait, woken, join, swsync, swstop, swopen, fin0, finwait, finstop, exited
    bufId,     \* bufId[t]: identifier of t's staging buffer, -1 before allocation
    q,         \* q[t]: messages committed and not yet consumed: <<k, site>>
    dealloc,   \* dealloc[t]: t has ended
    tb,        \* threadBuffers: sequence of threads
    nextId,
    inv,       \* invocationSites: registered sites in order
    nextInv, shadow,
    bg,        \* background thread: [pc, i, last, wrap, full, peek]
    obuf, cur, \* the two output buffers and which one is being filled
    aio,       \* [b, done] or none
    outst,     \* hasOutstandingOperation
    status,    \* syncStatus
    stop,      \* compressionThreadShouldExit
    fd,        \* current file
    disk,      \* disk[f]: sequence of entries
    spur,
    \* observable history (NanoLogSpec's variables)
    acc, ncall, busy, nret, files, opens, switching, need, acur, pcnt

prod == <<ip, st, bufId, q, dealloc, tb, nextId, inv>>
bgv == <<nextInv, shadow, bg, obuf, cur, aio, outst, fd, disk, stop>>
hist == <<acc, ncall, busy, nret, files, opens, switching, need, acur, pcnt>>
vars == <<prod, bgv, status, spur, hist>>

NoNeed == [t \in Threads |-> 0]
BgInit == [pc |-> "top", i |-> 1, last |-> 1, wrap |-> FALSE, full |-> FALSE, peek |-> 0]
Init ==
    /\ ip = [t \in Threads |-> 1]
    /\ st = [t \in Threads |-> "idle"]
    /\ bufId = [t \in Threads |-> -1]
    /\ q = [t \in Threads |-> <<>>]
    /\ dealloc = [t \in Threads |-> FALSE]
    /\ tb = <<>> /\ nextId = 0
    /\ inv = <<>> /\ nextInv = 0 /\ shadow = 0
    /\ bg = BgInit
    /\ obuf = [b \in {0, 1} |-> <<>>] /\ cur = 0
    /\ aio = [b |-> -1, done |-> TRUE] /\ outst = FALSE
    /\ status = "completed" /\ stop = FALSE
    /\ fd = "compressedLog" /\ disk = [f \in FileSet |-> <<>>]
    /\ spur = 0
    /\ acc = [t \in Threads |-> <<>>] /\ ncall = NoNeed
    /\ busy = [t \in Threads |-> FALSE] /\ nret = NoNeed
    /\ files = [f \in FileSet |-> <<>>]
    /\ opens = [f \in FileSet |-> IF f = "compressedLog" THEN 1 ELSE 0]
    /\ switching = "none" /\ need = [t \in Threads |-> NoNeed] /\ acur = "compressedLog" /\ pcnt = NoNeed

Op(t) == IF ip[t] <= Len(Prog[t]) THEN Prog[t][ip[t]] ELSE <<"end">>
IsLog(t) == Op(t)[1] = "log"
BgHoldsMutex == bg.pc \in {"scan", "del"}
Enc == obuf[cur]
Known(s) == \E j \in 1..Len(inv) : inv[j] = s
IdOf(s) == CHOOSE j \in 1..Len(inv) : inv[j] = s

-----------------------------------------------------------------------------
(* Logging threads *)
LogBegin(t) ==
    /\ st[t] = "idle" /\ IsLog(t)
    /\ st' = [st EXCEPT ![t] = "reg"]
    /\ ncall' = [ncall EXCEPT ![t] = @ + 1]
    /\ busy' = [busy EXCEPT ![t] = TRUE]
    /\ acc' = [acc EXCEPT ![t] = Append(@, [k |-> ncall[t] + 1, line |-> Op(t)[2], lvl |-> 1,
                    fs |-> IF switching = "none" THEN {acur} ELSE {acur, switching}])]
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, inv, bgv, status, spur, nret, files, opens, switching, need, acur, pcnt>>
Register(t) ==     \* first execution of the call site: registerInvocationSite, under registrationMutex
    /\ st[t] = "reg"
    /\ inv' = IF Known(Op(t)[2]) THEN inv ELSE Append(inv, Op(t)[2])
    /\ st' = [st EXCEPT ![t] = IF bufId[t] = -1 THEN "alloc" ELSE "resv"]
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, bgv, status, spur, hist>>
AllocId(t) ==      \* ensureStagingBufferAllocated, first critical section
    /\ st[t] = "alloc" /\ ~BgHoldsMutex
    /\ bufId' = [bufId EXCEPT ![t] = nextId] /\ nextId' = nextId + 1
    /\ st' = [st EXCEPT ![t] = "push"]
    /\ UNCHANGED <<ip, q, dealloc, tb, inv, bgv, status, spur, hist>>
Push(t) ==         \* second critical section
    /\ st[t] = "push" /\ ~BgHoldsMutex
    /\ tb' = Append(tb, t)
    /\ st' = [st EXCEPT ![t] = "resv"]
    /\ UNCHANGED <<ip, bufId, q, dealloc, nextId, inv, bgv, status, spur, hist>>
Commit(t) ==       \* space reserved and finishReservation; blocks (spins) while the buffer is full
    /\ st[t] = "resv" /\ Len(q[t]) < Cap
    /\ q' = [q EXCEPT ![t] = Append(@, <<ncall[t], Op(t)[2]>>)]
    /\ st' = [st EXCEPT ![t] = "logret"]
    /\ UNCHANGED <<ip, bufId, dealloc, tb, nextId, inv, bgv, status, spur, hist>>
LogReturn(t) ==
    /\ st[t] = "logret"
    /\ st' = [st EXCEPT ![t] = "idle"] /\ ip' = [ip EXCEPT ![t] = @ + 1]
    /\ busy' = [busy EXCEPT ![t] = FALSE]
    /\ nret' = [nret EXCEPT ![t] = Len(acc[t])]
    /\ UNCHANGED <<bufId, q, dealloc, tb, nextId, inv, bgv, status, spur, acc, ncall, files, opens, switching, need, acur, pcnt>>
ThreadEnd(t) ==
    /\ t # 0 /\ st[t] = "idle" /\ Op(t)[1] = "end"
    /\ st' = [st EXCEPT ![t] = "exited"]
    /\ dealloc' = [dealloc EXCEPT ![t] = TRUE]
    /\ UNCHANGED <<ip, bufId, q, tb, nextId, inv, bgv, status, spur, hist>>
Join(t) ==
    /\ t = 0 /\ st[t] = "idle" /\ Op(t)[1] = "join" /\ st[Op(t)[2]] = "exited"
    /\ ip' = [ip EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<st, bufId, q, dealloc, tb, nextId, inv, bgv, status, spur, hist>>

-----------------------------------------------------------------------------
(* sync(): set the request and wait, in one critical section of condMutex.  *)
(* Used by sync() itself, by setLogFile() and by the destructor.            *)
Waiting == {"wait", "swwait", "finwait"}
WokenOf(s) == CASE s = "wait" -> "woken" [] s = "swwait" -> "swwoken" [] s = "finwait" -> "finwoken"
WaitOf(s) == CASE s = "woken" -> "wait" [] s = "swwoken" -> "swwait" [] s = "finwoken" -> "finwait"
SyncCall(t) ==     \* the call is observed before the request is made
    /\ st[t] = "idle" /\ Op(t)[1] = "sync"
    /\ need' = [need EXCEPT ![t] = nret]
    /\ st' = [st EXCEPT ![t] = "sync0"]
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, inv, bgv, status, spur, acc, ncall, busy, nret, files, opens, switching, acur, pcnt>>
Request(t) ==
    /\ st[t] \in {"sync0", "sw0", "fin0"}
    /\ status' = "requested"
    /\ st' = [st EXCEPT ![t] = CASE @ = "sync0" -> "wait" [] @ = "sw0" -> "swwait" [] @ = "fin0" -> "finwait"]
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, inv, bgv, spur, hist>>
SpuriousWake(t) ==
    /\ st[t] \in Waiting /\ spur < Spurious /\ spur' = spur + 1
    /\ st' = [st EXCEPT ![t] = WokenOf(@)]
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, inv, bgv, status, hist>>
Rewait(t) ==       \* woken, but the status is not "completed"
    /\ st[t] \in {"woken", "swwoken", "finwoken"} /\ status # "completed"
    /\ st' = [st EXCEPT ![t] = WaitOf(@)]
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, inv, bgv, status, spur, hist>>
SyncReturn(t) ==
    /\ st[t] = "woken" /\ status = "completed"
    /\ st' = [st EXCEPT ![t] = "idle"] /\ ip' = [ip EXCEPT ![t] = @ + 1]
    /\ need' = [need EXCEPT ![t] = NoNeed]
    /\ UNCHANGED <<bufId, q, dealloc, tb, nextId, inv, bgv, status, spur, acc, ncall, busy, nret, files, opens, switching, acur, pcnt>>

(* setLogFile(f): open, sync, stop the background thread, switch, restart   *)
SwitchCall(t) ==
    /\ t = 0 /\ st[t] = "idle" /\ Op(t)[1] = "switch"
    /\ switching' = Op(t)[2]
    /\ need' = [need EXCEPT ![t] = nret]
    /\ acc' = [u \in Threads |-> IF busy[u] /\ acc[u] # <<>> /\ acc[u][Len(acc[u])].k = ncall[u]
                                 THEN [acc[u] EXCEPT ![Len(acc[u])].fs = @ \cup {Op(t)[2]}] ELSE acc[u]]
    /\ opens' = [opens EXCEPT ![Op(t)[2]] = @ + 1]
    /\ st' = [st EXCEPT ![t] = "sw0"]
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, inv, bgv, status, spur, ncall, busy, nret, files, acur, pcnt>>
StopBg(t) ==
    /\ st[t] \in {"swwoken", "finwoken"} /\ status = "completed"
    /\ stop' = TRUE
    /\ st' = [st EXCEPT ![t] = IF @ = "swwoken" THEN "swjoin" ELSE "finjoin"]
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, inv, nextInv, shadow, bg, obuf, cur, aio, outst, fd, disk, status, spur, hist>>
Restart(t) ==
    /\ st[t] = "swjoin" /\ bg.pc = "done"
    /\ fd' = Op(t)[2] /\ nextInv' = 0 /\ shadow' = 0 /\ stop' = FALSE /\ bg' = BgInit
    /\ st' = [st EXCEPT ![t] = "swret"]
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, inv, obuf, cur, aio, outst, disk, status, spur, hist>>
SwitchReturn(t) ==
    /\ st[t] = "swret"
    /\ st' = [st EXCEPT ![t] = "idle"] /\ ip' = [ip EXCEPT ![t] = @ + 1]
    /\ switching' = "none" /\ need' = [need EXCEPT ![t] = NoNeed] /\ acur' = fd
    /\ UNCHANGED <<bufId, q, dealloc, tb, nextId, inv, bgv, status, spur, acc, ncall, busy, nret, files, opens, pcnt>>

(* process exit: main returns (all other threads have ended), destructor    *)
MainEnd ==
    /\ st[0] = "idle" /\ Op(0)[1] = "end" /\ \A t \in Threads \ {0} : st[t] = "exited"
    /\ st' = [st EXCEPT ![0] = "fin0"]
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, inv, bgv, status, spur, hist>>
MainGone ==
    /\ st[0] = "finjoin" /\ bg.pc = "done"
    /\ st' = [st EXCEPT ![0] = "gone"]
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, inv, bgv, status, spur, hist>>

-----------------------------------------------------------------------------
(* The background thread *)
Go(l) == [bg EXCEPT !.pc = l]
\* Liveness needs a mutex that is eventually granted. Instead of strong fairness (expensive in TLC) the
\* liveness configurations replace MutexGate by FairMutex: the background thread does not re-take the mutex
\* while a thread is blocked on it.
MutexGate == TRUE
FairMutex == \A t \in Threads : st[t] \notin {"alloc", "push"}
BgTop ==      \* loop condition; takes bufferMutex; new dictionary entries, as many as fit
    /\ bg.pc = "top" /\ MutexGate
    /\ IF stop /\ Enc = <<>> /\ ~outst
       THEN bg' = Go("done") /\ UNCHANGED <<obuf, nextInv, shadow>>
       ELSE LET room == OutCap - Len(Enc)
                n == IF Len(inv) - nextInv < room THEN Len(inv) - nextInv ELSE room
            IN /\ obuf' = [obuf EXCEPT ![cur] = @ \o [j \in 1..n |-> <<"dict", nextInv + j, inv[nextInv + j]>>]]
               /\ nextInv' = nextInv + n
               /\ shadow' = nextInv + n
               /\ bg' = [bg EXCEPT !.pc = "scan", !.i = bg.last]
    /\ UNCHANGED <<prod, cur, aio, outst, fd, disk, stop, status, spur, hist>>
Adv(b, n) ==  \* next buffer of n, or the end of the pass
    LET j == IF b.i >= n THEN 1 ELSE b.i + 1
    IN IF j = b.last \/ b.full THEN [b EXCEPT !.i = 1, !.peek = 0, !.pc = "after", !.wrap = @ \/ j = 1]
       ELSE [b EXCEPT !.i = j, !.peek = 0, !.pc = "scan", !.wrap = @ \/ j = 1]
BgScan ==     \* look at one buffer: peek
    /\ bg.pc = "scan"
    /\ IF bg.full \/ tb = <<>> THEN bg' = [bg EXCEPT !.pc = "after", !.i = 1]
       ELSE \/ /\ q[tb[bg.i]] # <<>>
               /\ \E n \in 1..Len(q[tb[bg.i]]) : bg' = [bg EXCEPT !.pc = "enc", !.peek = n]
            \/ /\ q[tb[bg.i]] = <<>>
               /\ bg' = Go("del")
    /\ UNCHANGED <<prod, nextInv, shadow, obuf, cur, aio, outst, fd, disk, stop, status, spur, hist>>
BgDelete ==   \* peek saw nothing; the buffer may be deleted if its thread has ended and it is (still) empty
    /\ bg.pc = "del"
    /\ LET t == tb[bg.i]
           ntb == SubSeq(tb, 1, bg.i - 1) \o SubSeq(tb, bg.i + 1, Len(tb))
       IN IF dealloc[t] /\ q[t] = <<>>
          THEN /\ tb' = ntb
               /\ bg' = IF ntb = <<>> THEN [bg EXCEPT !.pc = "after", !.i = 1, !.last = 1, !.wrap = TRUE]
                        ELSE IF bg.last > bg.i THEN Adv([bg EXCEPT !.last = @ - 1, !.i = @ - 1], Len(ntb))
                        ELSE IF bg.last = bg.i
                             THEN LET j == IF bg.i > Len(ntb) THEN 1 ELSE bg.i
                                  IN [bg EXCEPT !.pc = "scan", !.i = j, !.last = j, !.wrap = @ \/ bg.i > Len(ntb)]
                        ELSE Adv([bg EXCEPT !.i = @ - 1], Len(ntb))
          ELSE tb' = tb /\ bg' = Adv(bg, Len(tb))
    /\ UNCHANGED <<ip, st, bufId, q, dealloc, nextId, inv, nextInv, shadow, obuf, cur, aio, outst, fd, disk, stop, status, spur, hist>>
Fits(t, n) ==   \* the longest prefix of the first n messages of t that can be encoded
    LET room == OutCap - Len(Enc) - 1
        ok(m) == /\ m <= room
                 /\ \A j \in 1..m : IdOf(q[t][j][2]) <= shadow
    IN CHOOSE m \in 0..n : ok(m) /\ \A m2 \in m+1..n : ~ok(m2)
BgEncode ==   \* bufferMutex released; encode one chunk, release its space
    /\ bg.pc = "enc"
    /\ LET t == tb[bg.i]
           want == IF bg.peek < Chunk THEN bg.peek ELSE Chunk
       IN IF OutCap - Len(Enc) < 1
          THEN /\ bg' = Adv([bg EXCEPT !.full = TRUE, !.last = bg.i], Len(tb))      \* not even an extent header fits
               /\ UNCHANGED <<obuf, q>>
          ELSE LET n == Fits(t, want)
                   ext == <<"ext">>
                   ms == [j \in 1..n |-> <<"msg", t, q[t][j][1], q[t][j][2], bufId[t]>>]
               IN /\ obuf' = [obuf EXCEPT ![cur] = @ \o <<ext>> \o ms]
                  /\ q' = [q EXCEPT ![t] = SubSeq(@, n + 1, Len(@))]
                  /\ bg' = IF n = 0 THEN Adv([bg EXCEPT !.full = TRUE, !.last = bg.i], Len(tb))
                           ELSE IF bg.peek = n THEN Adv([bg EXCEPT !.wrap = FALSE], Len(tb))
                           ELSE [bg EXCEPT !.wrap = FALSE, !.peek = @ - n]
    /\ UNCHANGED <<ip, st, bufId, dealloc, tb, nextId, inv, nextInv, shadow, cur, aio, outst, fd, disk, stop, status, spur, hist>>
Woken(S) == {t \in Threads : st[t] \in S}
NotifyOne == \/ \E t \in Woken(Waiting) : st' = [st EXCEPT ![t] = WokenOf(@)]
             \/ Woken(Waiting) = {} /\ st' = st
BgAfter ==    \* nothing encoded: advance the sync state machine (condMutex), then sleep
    /\ bg.pc = "after"
    /\ IF Enc # <<>> THEN bg' = Go("io") /\ UNCHANGED <<status, st>>
       ELSE IF status = "requested" THEN status' = "second" /\ bg' = Go("top") /\ UNCHANGED st
       ELSE LET s == IF status = "second" THEN (IF outst THEN "aio" ELSE "completed") ELSE status
            IN /\ status' = s
               /\ IF s = "completed" THEN NotifyOne ELSE UNCHANGED st
               /\ bg' = Go("io")
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, inv, nextInv, shadow, obuf, cur, aio, outst, fd, disk, stop, spur, hist>>
Start ==      \* all writes are done: start the next one if there is something to write, swap the buffers
    IF Enc = <<>> THEN bg' = Go("top") /\ UNCHANGED <<obuf, cur, aio>> /\ outst' = FALSE
    ELSE /\ aio' = [b |-> cur, done |-> FALSE] /\ outst' = TRUE
         /\ cur' = 1 - cur /\ obuf' = [obuf EXCEPT ![1 - cur] = <<>>]
         /\ bg' = [bg EXCEPT !.pc = "top", !.full = FALSE]
BgIo ==
    /\ bg.pc = "io"
    /\ \/ outst /\ ~aio.done /\ ~bg.full                \* keep polling
          /\ bg' = Go("top") /\ UNCHANGED <<obuf, cur, aio, outst, status, st>>
       \/ outst /\ ~aio.done /\ bg.full /\ Eintr         \* (fault) suspend returned early
          /\ Start /\ UNCHANGED <<status, st>>
       \/ outst /\ aio.done
          /\ Start
          /\ IF status = "aio" THEN status' = "completed" /\ NotifyOne ELSE UNCHANGED <<status, st>>
       \/ ~outst /\ Start /\ UNCHANGED <<status, st>>
    /\ UNCHANGED <<ip, bufId, q, dealloc, tb, nextId, inv, nextInv, shadow, fd, disk, stop, spur, hist>>
MsgsOf(entries, f) ==
    LET ms == SelectSeq(entries, LAMBDA e : e[1] = "msg")
    IN [j \in 1..Len(ms) |-> <<ms[j][2], ms[j][3], ms[j][4], 1, ms[j][5], 1, opens[f] - 1>>]
IoComplete == \* the write reads the buffer now
    /\ ~aio.done
    /\ aio' = [aio EXCEPT !.done = TRUE]
    /\ disk' = [disk EXCEPT ![fd] = @ \o SelectSeq(obuf[aio.b], LAMBDA e : e[1] # "ext")]
    /\ obuf' = IF aio.b = cur THEN obuf ELSE [obuf EXCEPT ![aio.b] = <<>>]
    /\ files' = [files EXCEPT ![fd] = @ \o MsgsOf(obuf[aio.b], fd)]
    /\ pcnt' = [t \in Threads |-> pcnt[t] + Len(SelectSeq(obuf[aio.b], LAMBDA e : e[1] = "msg" /\ e[2] = t))]
    /\ UNCHANGED <<prod, nextInv, shadow, bg, cur, outst, fd, stop, status, spur, acc, ncall, busy, nret, opens, switching, need, acur>>

-----------------------------------------------------------------------------
Bg == BgTop \/ BgScan \/ BgDelete \/ BgEncode \/ BgAfter \/ BgIo
Thread(t) == \/ LogBegin(t) \/ Register(t) \/ AllocId(t) \/ Push(t) \/ Commit(t) \/ LogReturn(t) \/ ThreadEnd(t)
             \/ Join(t) \/ SyncCall(t) \/ Request(t) \/ Rewait(t) \/ SyncReturn(t)
             \/ SwitchCall(t) \/ StopBg(t) \/ Restart(t) \/ SwitchReturn(t)
Next == Bg \/ IoComplete \/ MainEnd \/ MainGone \/ (\E t \in Threads : Thread(t) \/ SpuriousWake(t))
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Bg) /\ WF_vars(IoComplete) /\ WF_vars(MainEnd) /\ WF_vars(MainGone)
             /\ \A t \in Threads : WF_vars(Thread(t))

-----------------------------------------------------------------------------
Persisted(t) == pcnt[t]
Abs == INSTANCE NanoLogSpec WITH
    Threads <- Threads, Files <- FileSet, InitFile <- "compressedLog",
    level <- 3, pc <- [t \in Threads |-> Persisted(t)], cur <- acur,
    buf <- [t \in Threads |-> IF Persisted(t) > 0 THEN bufId[t] ELSE -1]
RefinesSpec == Abs!SSpec

(* Invariants beyond the refinement *)
BufferOk == \A t \in Threads : Len(q[t]) <= Cap
OutputOk == \A b \in {0, 1} : Len(obuf[b]) <= OutCap
\* the buffer being written is never touched while the write is in flight
NoOverwrite == ~aio.done => aio.b # cur
\* a message is never in a file before its call site's description
DictFirst == \A f \in FileSet : \A j \in 1..Len(disk[f]) : disk[f][j][1] = "msg" =>
                \E i \in 1..j-1 : disk[f][i][1] = "dict" /\ disk[f][i][3] = disk[f][j][4]
\* dictionary entries appear in order, each once per opening
DictOrder == \A f \in FileSet : LET ds == SelectSeq(disk[f], LAMBDA e : e[1] = "dict")
                IN \A i \in 1..Len(ds) : ds[i][2] = i \/ (ds[i][2] <= i)
UniqueIds == \A t, u \in Threads : t # u /\ bufId[t] # -1 => bufId[t] # bufId[u]
\* a buffer leaves the list only when empty and its owner is gone
Reclaim == \A t \in Threads : (bufId[t] # -1 /\ st[t] # "push" /\ (\A i \in 1..Len(tb) : tb[i] # t)) => dealloc[t] /\ q[t] = <<>>
\* normal exit: everything is on disk
ExitDurable == st[0] = "gone" => \A t \in Threads : Persisted(t) = nret[t]
IndexOk == bg.pc \in {"enc", "del"} => bg.i \in 1..Len(tb)
Termination == <>(st[0] = "gone")
SyncsReturn == \A t \in Threads : (st[t] = "wait") ~> (st[t] # "wait" /\ st[t] # "woken")
=============================================================================
