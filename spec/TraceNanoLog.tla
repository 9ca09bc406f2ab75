---------------------------- MODULE TraceNanoLog ----------------------------
(***************************************************************************)
(* Validates a batch of recorded executions of the real code against       *)
(* NanoLogSpec.  traces.json is a sequence of traces, each a sequence of   *)
(* events.  Every trace is consumed event by event; an event that the      *)
(* specification does not allow ends the trace in a Reject step that       *)
(* prints the trace number, the position and the names of the broken       *)
(* guards.                                                                 *)
(***************************************************************************)
EXTENDS NanoLogSpec, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, rejected
tvars == <<svars, tr, l, rejected>>

Ev == Traces[tr][l]
\* thread numbers used by the traces
TraceThreads == 0..atoi(IOEnv.NT)

Broken(e) ==
    CASE e.op = "snap" ->
            LET f == e.f  m == e.m IN
            IF f \notin Files THEN {"file"}
            ELSE IF ~G_Append(f, m) THEN {"append"}
            ELSE IF ~G_Known(f, m) THEN {"known"}
            ELSE (IF G_Fifo(f, m) THEN {} ELSE {"fifo"})
              \cup (IF G_File(f, m) THEN {} ELSE {"file"})
              \cup (IF G_Meta(f, m) THEN {} ELSE {"meta"})
              \cup (IF G_Ids(f, m) THEN {} ELSE {"ids"})
              \cup (IF G_Exec(f, m) /\ G_ExecNow(f, m) THEN {} ELSE {"exec"})
              \cup (IF e.opened => G_Count(m, e.ret, e.cnt) THEN {} ELSE {"count"})
      [] e.op = "sr" -> IF G_SyncDurable(e.t) THEN {} ELSE {"syncdur"}
      [] e.op = "fr" -> (IF G_SwitchOk(e.f, e.ok) THEN {} ELSE {"switchok"})
                   \cup (IF G_SwitchDurable(e.t, e.ok) THEN {} ELSE {"switchdur"})
      [] e.op = "lvl" -> IF G_Level(e.v, e.got) THEN {} ELSE {"level"}
      [] e.op = "ord" -> IF G_OrderedPerm(e.f, e.m) THEN {} ELSE {"ordered"}
      [] e.op = "live" -> IF e.n <= e.max THEN {} ELSE {"live"}
      [] e.op = "stats" -> IF G_StatEvents(e.events) /\ G_StatBytes(e.out, e.size) /\ G_StatFlushes(e.flushes, e.ios)
                              /\ G_StatPadding(e.pad, e.waste, e.out, e.block, e.flushes) /\ G_StatThreads(e.alloc, e.t, e.live) THEN {} ELSE {"stats"}
      [] e.op = "exit" -> IF G_ExitDurable THEN {} ELSE {"exitdur"}
      [] e.op = "torn" -> {"torn"}
      [] e.op = "uaf" -> {"uaf"}
      [] e.op = "crash" -> {"crash"}
      [] e.op = "bad" -> {e.k}
      [] OTHER -> {}

Take(e) ==
    CASE e.op = "lc" -> LogCall(e.t, e.k, e.line, e.lvl)
      [] e.op = "lr" -> LogRet(e.t, e.k)
      [] e.op = "snap" -> Persist(e.f, e.m)
      [] e.op = "sc" -> SyncCall(e.t)
      [] e.op = "sr" -> SyncRet(e.t)
      [] e.op = "fc" -> SwitchCall(e.t, e.f)
      [] e.op = "fr" -> SwitchRet(e.t, e.f, e.ok)
      [] e.op = "lvl" -> SetLevel(e.v)
      [] e.op = "exit" -> Exit
      [] OTHER -> UNCHANGED svars

TraceInit == SInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE

TraceStep ==
    /\ ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) = {}
    /\ Take(Ev)
    /\ l' = l + 1 /\ UNCHANGED <<tr, rejected>>
TraceReject ==
    /\ ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) # {}
    /\ PrintT(<<"REJECT", tr, l, Broken(Ev)>>)
    /\ rejected' = TRUE /\ UNCHANGED <<svars, tr, l>>
\* an event the specification has no step for at all (harness/spec mismatch)
TraceStuck ==
    /\ ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) = {} /\ ~ENABLED Take(Ev)
    /\ PrintT(<<"REJECT", tr, l, {"stuckev"}>>)
    /\ rejected' = TRUE /\ UNCHANGED <<svars, tr, l>>
TraceDone ==
    /\ ~rejected /\ l = Len(Traces[tr]) + 1
    /\ TLCSet(1, TLCGet(1) + 1)
    /\ rejected' = TRUE /\ UNCHANGED <<svars, tr, l>>

TraceNext == TraceStep \/ TraceReject \/ TraceStuck \/ TraceDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars

ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"ACCEPTED", TLCGet(1), "OF", Len(Traces)>>)
=============================================================================
