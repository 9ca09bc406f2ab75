---------------------------- MODULE NanoLogSpec ----------------------------
(***************************************************************************)
(* What NanoLog promises, as a state machine over its observable events.   *)
(*                                                                         *)
(* A log statement is a call (LogCall) and a return (LogRet).  The log     *)
(* file is observed as the sequence of messages a decompressor recovers    *)
(* from it (Persist): every time the file grows, the whole file is decoded *)
(* and the result has to extend the previous one by messages that were     *)
(* really logged, in each thread's order, exactly once, in the right file, *)
(* with the right call-site data.  sync(), setLogFile() and process exit   *)
(* are call/return pairs with obligations at the return.                   *)
(*                                                                         *)
(* Each obligation is a named guard, so that a rejected trace says which   *)
(* promise was broken.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads,     \* thread names (naturals in traces)
          Files,       \* log files that can be opened
          InitFile     \* the default log file

VARIABLES
    acc,      \* acc[t]: sequence of accepted messages of t, [k, line, lvl, fs]; fs = files it may go to
    ncall,    \* ncall[t]: number of log statements t has begun (also suppressed ones)
    busy,     \* busy[t]: t is inside a log statement
    nret,     \* nret[t]: number of accepted messages of t whose statement has returned
    level,    \* log level in force
    files,    \* files[f]: messages recovered from f so far, in file order (first 7 fields of Persist's tuples)
    pc,       \* pc[t]: how many of acc[t] have been recovered (from any file)
    cur,      \* file in use
    opens,    \* opens[f]: number of times f was opened by this process
    switching,\* file name being switched to, or "none"
    need,     \* need[t]: obligations of the sync/switch t is executing
    buf       \* buf[t]: identifier under which t's messages appear, or -1

svars == <<acc, ncall, busy, nret, level, files, pc, cur, opens, switching, need, buf>>

NumLevels == 5          \* silent, error, warning, notice, debug
NoNeed == [t \in Threads |-> 0]

SInit ==
    /\ acc = [t \in Threads |-> <<>>]
    /\ ncall = [t \in Threads |-> 0]
    /\ busy = [t \in Threads |-> FALSE]
    /\ nret = [t \in Threads |-> 0]
    /\ level = 3
    /\ files = [f \in Files |-> <<>>]
    /\ pc = [t \in Threads |-> 0]
    /\ cur = InitFile
    /\ opens = [f \in Files |-> IF f = InitFile THEN 1 ELSE 0]
    /\ switching = "none"
    /\ need = [t \in Threads |-> NoNeed]
    /\ buf = [t \in Threads |-> -1]

-----------------------------------------------------------------------------
(* Helpers *)
IsPrefixOf(s, u) == Len(s) <= Len(u) /\ \A i \in 1..Len(s) : s[i] = u[i]
Clamp(v) == IF v < 0 THEN 0 ELSE IF v >= NumLevels THEN NumLevels - 1 ELSE v

(* number of accepted messages of t among statements that returned *)
Obligations == nret

-----------------------------------------------------------------------------
(* Log statements *)
LogCall(t, k, line, lvl) ==
    /\ ~busy[t] /\ k = ncall[t] + 1
    /\ ncall' = [ncall EXCEPT ![t] = k]
    /\ busy' = [busy EXCEPT ![t] = TRUE]
    /\ acc' = IF lvl <= level
              THEN [acc EXCEPT ![t] = Append(@, [k |-> k, line |-> line, lvl |-> lvl,
                        fs |-> IF switching = "none" THEN {cur} ELSE {cur, switching}])]
              ELSE acc
    /\ UNCHANGED <<nret, level, files, pc, cur, opens, switching, need, buf>>

LogRet(t, k) ==
    /\ busy[t] /\ k = ncall[t]
    /\ busy' = [busy EXCEPT ![t] = FALSE]
    /\ nret' = [nret EXCEPT ![t] = Len(acc[t])]
    /\ UNCHANGED <<acc, ncall, level, files, pc, cur, opens, switching, need, buf>>

SetLevel(v) ==
    /\ level' = Clamp(v)
    /\ UNCHANGED <<acc, ncall, busy, nret, files, pc, cur, opens, switching, need, buf>>
G_Level(v, got) == got = Clamp(v)

-----------------------------------------------------------------------------
(* The file as a decompressor sees it.                                     *)
(* m is a sequence of <<t, k, line, lvl, bufferId, textOk, exec, rank>>    *)
New(f, m) == SubSeq(m, Len(files[f]) + 1, Len(m))
Mine(t, s) == SelectSeq(s, LAMBDA x : x[1] = t)

G_Append(f, m) ==        \* what was in the file stays, in place
    /\ Len(files[f]) <= Len(m)
    /\ \A i \in 1..Len(files[f]) : SubSeq(m[i], 1, 7) = files[f][i]
G_Known(f, m) ==         \* nothing but accepted messages, text intact
    \A i \in 1..Len(m) : /\ m[i][6] = 1
                         /\ m[i][1] \in Threads
                         /\ \E j \in 1..Len(acc[m[i][1]]) : acc[m[i][1]][j].k = m[i][2]
G_Fifo(f, m) ==          \* each thread's new messages continue its sequence: no loss, no repeat, no reorder
    \A t \in Threads : LET s == Mine(t, New(f, m)) IN
        /\ pc[t] + Len(s) <= Len(acc[t])
        /\ \A i \in 1..Len(s) : s[i][2] = acc[t][pc[t] + i].k
G_File(f, m) ==          \* in the file that was current
    LET n == New(f, m) IN \A i \in 1..Len(n) :
        \A j \in 1..Len(acc[n[i][1]]) : acc[n[i][1]][j].k = n[i][2] => f \in acc[n[i][1]][j].fs
G_Meta(f, m) ==          \* call-site information
    LET n == New(f, m) IN \A i \in 1..Len(n) :
        \A j \in 1..Len(acc[n[i][1]]) : acc[n[i][1]][j].k = n[i][2] =>
            /\ n[i][3] = acc[n[i][1]][j].line
            /\ n[i][4] = acc[n[i][1]][j].lvl
G_Ids(f, m) ==           \* one identifier per thread, one thread per identifier
    LET n == New(f, m) IN \A i \in 1..Len(n) :
        /\ buf[n[i][1]] \in {-1, n[i][5]}
        /\ \A t \in Threads \ {n[i][1]} : buf[t] # n[i][5]
        /\ \A j \in 1..Len(n) : (n[i][1] = n[j][1]) <=> (n[i][5] = n[j][5])
G_Exec(f, m) ==          \* messages appear after the marker of the opening that wrote them
    LET n == New(f, m) IN \A i \in 1..Len(n) : n[i][7] <= opens[f] - 1
G_ExecNow(f, m) ==
    LET n == New(f, m) IN switching = "none" => \A i \in 1..Len(n) : n[i][7] = opens[f] - 1
G_Count(m, ret, cnt) == ret = Len(m) /\ cnt = Len(m)

Persist(f, m) ==
    /\ G_Append(f, m) /\ G_Known(f, m) /\ G_Fifo(f, m) /\ G_File(f, m) /\ G_Meta(f, m) /\ G_Ids(f, m) /\ G_Exec(f, m) /\ G_ExecNow(f, m)
    /\ files' = [files EXCEPT ![f] = [i \in 1..Len(m) |-> SubSeq(m[i], 1, 7)]]
    /\ pc' = [t \in Threads |-> pc[t] + Len(Mine(t, New(f, m)))]
    /\ buf' = [t \in Threads |-> LET s == Mine(t, New(f, m)) IN IF s = <<>> THEN buf[t] ELSE s[1][5]]
    /\ UNCHANGED <<acc, ncall, busy, nret, level, cur, opens, switching, need>>

-----------------------------------------------------------------------------
(* sync() *)
SyncCall(s) ==
    /\ need' = [need EXCEPT ![s] = Obligations]
    /\ UNCHANGED <<acc, ncall, busy, nret, level, files, pc, cur, opens, switching, buf>>
G_SyncDurable(s) == \A t \in Threads : pc[t] >= need[s][t]
SyncRet(s) ==
    /\ G_SyncDurable(s)
    /\ need' = [need EXCEPT ![s] = NoNeed]
    /\ UNCHANGED <<acc, ncall, busy, nret, level, files, pc, cur, opens, switching, buf>>

(* setLogFile() *)
SwitchCall(s, f) ==
    /\ switching' = f
    /\ need' = [need EXCEPT ![s] = Obligations]
    \* a statement still executing may end up on either side of the switch
    /\ acc' = [t \in Threads |-> IF busy[t] /\ acc[t] # <<>> /\ acc[t][Len(acc[t])].k = ncall[t]
                                THEN [acc[t] EXCEPT ![Len(acc[t])].fs = @ \cup {f}] ELSE acc[t]]
    /\ opens' = IF f \in Files THEN [opens EXCEPT ![f] = @ + 1] ELSE opens
    /\ UNCHANGED <<ncall, busy, nret, level, files, pc, cur, buf>>
G_SwitchOk(f, ok) == ok = (f \in Files)
G_SwitchDurable(s, ok) == ok => \A t \in Threads : pc[t] >= need[s][t]
SwitchRet(s, f, ok) ==
    /\ G_SwitchOk(f, ok) /\ G_SwitchDurable(s, ok)
    /\ cur' = IF ok THEN f ELSE cur
    /\ switching' = "none"
    /\ need' = [need EXCEPT ![s] = NoNeed]
    /\ UNCHANGED <<acc, ncall, busy, nret, level, files, pc, opens, buf>>

(* Statistics, read when no thread is inside a log statement and everything is synced:
   messages, bytes and completed writes so far, and messages per living thread *)
RECURSIVE SumTo(_, _)
SumTo(f, S) == IF S = {} THEN 0 ELSE LET t == CHOOSE x \in S : TRUE IN f[t] + SumTo(f, S \ {t})
G_StatEvents(n) == n = SumTo([t \in Threads |-> Len(acc[t])], Threads)
G_StatBytes(out, size) == out = size
G_StatFlushes(n, ios) == ios >= 0 => n = ios
(* waste: bytes of the files that belong to no entry *)
G_StatPadding(pad, waste, out, block, flushes) ==
    pad = waste /\ IF block = 1 THEN pad = 0 ELSE out % block = 0 /\ pad <= (block - 1) * flushes
(* alloc: <<identifier, messages, how often blocked, the same by duration>> of the existing buffers;
   live: how many there were after and before asking *)
G_StatThreads(alloc, self, live) ==
    /\ live[1] <= Len(alloc) /\ Len(alloc) <= live[2]
    /\ \A i, j \in 1..Len(alloc) : alloc[i][1] = alloc[j][1] => i = j
    /\ \A i \in 1..Len(alloc) :
          IF \E t \in Threads : buf[t] = alloc[i][1]
          THEN \E t \in Threads : buf[t] = alloc[i][1] /\ alloc[i][2] = Len(acc[t])
          ELSE alloc[i][2] = 0
    /\ buf[self] # -1 => \E i \in 1..Len(alloc) : alloc[i][1] = buf[self]
    /\ \A i \in 1..Len(alloc) : 0 <= alloc[i][3] /\ alloc[i][3] <= alloc[i][2] /\ alloc[i][4] = alloc[i][3]

(* normal process exit *)
G_ExitDurable == \A t \in Threads : pc[t] >= nret[t]
Exit == G_ExitDurable /\ UNCHANGED svars

-----------------------------------------------------------------------------
(* The specification as a state machine (for refinement checking).         *)
SLogCall(t) ==
    \/ /\ Len(acc'[t]) > Len(acc[t])
       /\ LET a == acc'[t][Len(acc'[t])] IN LogCall(t, ncall[t] + 1, a.line, a.lvl)
    \/ /\ acc' = acc /\ ncall'[t] = ncall[t] + 1
       /\ LogCall(t, ncall[t] + 1, 0, NumLevels)                  \* suppressed
SNext ==
    \/ \E t \in Threads : SLogCall(t) \/ LogRet(t, ncall[t]) \/ SyncCall(t) \/ SyncRet(t)
    \/ \E t \in Threads, f \in Files : SwitchCall(t, f) \/ SwitchRet(t, f, TRUE)
    \/ \E v \in 0..4 : SetLevel(v)
    \/ \E f \in Files : Len(files'[f]) > Len(files[f]) /\ Persist(f, files'[f])
SSpec == SInit /\ [][SNext]_svars

(* chronological decompression of f: the same messages, each thread's in order *)
G_OrderedPerm(f, m) ==
    /\ Len(m) = Len(files[f])
    /\ \A t \in Threads : LET a == Mine(t, m)
                              b == SelectSeq(files[f], LAMBDA x : x[1] = t)
                          IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][2] = b[i][2]
=============================================================================
