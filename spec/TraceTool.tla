------------------------------ MODULE TraceTool ------------------------------
(* Judges the outputs of the decompressor tool on logs of a real program. *)
EXTENDS Tool, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, rejected
v == <<tr, l, rejected>>
Ev == Traces[tr][l]
Log == Traces[tr][1].log
Lines == Traces[tr][1].lines
File == Traces[tr][1].file
(* the identifier of each statement, as the find command lists them all *)
Ids == LET rows == Traces[tr][2].rows IN [i \in DOMAIN rows |-> rows[i].id]
SiteOf(id) == LET rows == Traces[tr][2].rows
                  r == {i \in DOMAIN rows : rows[i].id = id}
              IN IF r = {} THEN 0 ELSE LET row == rows[CHOOSE i \in r : TRUE]
                                           s == {k \in DOMAIN Sites : Lines[k] = row.n}
                                       IN IF s = {} THEN 0 ELSE CHOOSE k \in s : TRUE
If(c, x) == IF c THEN {} ELSE {x}
Rows(e) ==
    LET want == Matching(e.q) IN
    If(Len(e.rows) = Cardinality(want) /\ {e.rows[i].n : i \in DOMAIN e.rows} = {Lines[s] : s \in want}, "statements")
    \cup If(\A i \in DOMAIN e.rows : SiteOf(e.rows[i].id) # 0 /\ LET s == SiteOf(e.rows[i].id) IN
              e.rows[i].n = Lines[s] /\ e.rows[i].f = File /\ e.rows[i].t = Sites[s].f, "row")
    \cup If(\A i \in 1..(Len(e.rows) - 1) : e.rows[i].id < e.rows[i + 1].id, "ids")
Aggregate(e) ==
    LET s == SiteOf(e.id)
        vs == Values(Log, s)
        n == Len(vs)
        all == Len(Messages(Log))
    IN IF s = 0 THEN If(e.status > 0 /\ e.said, "unknown id accepted")
       ELSE If(e.status = 0, "status") \cup If(e.fmt = Sites[s].f, "format")
            \cup If(e.all = all /\ e.n = n /\ (all > 0 => Percent(e.pct, n, all)), "count")
            \cup (IF n = 0 \/ ~Sites[s].agg THEN {} ELSE
                    If(e.min = Pair(Least(vs)), "min") \cup If(e.max = Pair(Greatest(vs)), "max")
                    \cup If(e.total = Total(vs), "total") \cup If(IsMean(e.mean, n, Total(vs)), "mean"))
Curved(e) ==
    LET ds == Deltas(Log) IN
    If(e.status = 0, "status") \cup
    (IF Len(Messages(Log)) < 2 THEN {}
     ELSE If(e.n = Len(ds), "entries")
          \cup (IF Len(e.curve) > 0 /\ IsCurve(e.curve, ds) THEN If(IsMeanDelta(e.mean, e.curve, ds), "mean latency") ELSE {"curve"}))
Broken(e) ==
    CASE e.op = "log" -> If(e.status = 0, "program")
      [] e.op = "find" -> If(e.status = 0, "status") \cup Rows(e)
      [] e.op = "agg" -> Aggregate(e)
      [] e.op = "ordered" -> If(e.status = 0, "status") \cup If(InOrder(Log, e.got, Lines, File), "messages") \cup If(e.n = Len(Messages(Log)) /\ e.marks = Len(Log) - 1, "count")
      [] e.op = "unordered" -> If(e.status = 0, "status") \cup If(Unordered(Log, e.got, Lines, File), "messages") \cup If(e.n = Len(Messages(Log)) /\ e.marks = Len(Log) - 1, "count")
      [] e.op = "rcdf" -> Curved(e)
      [] e.op = "refused" -> If(e.status > 0 /\ e.said, "accepted")
      [] OTHER -> {"crash"}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ rejected = FALSE
Step == ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) = {} /\ l' = l + 1 /\ UNCHANGED <<tr, rejected>>
Reject == ~rejected /\ l <= Len(Traces[tr]) /\ Broken(Ev) # {} /\ PrintT(<<"REJECT", tr, l, Broken(Ev)>>) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Done == ~rejected /\ l = Len(Traces[tr]) + 1 /\ TLCSet(1, TLCGet(1) + 1) /\ rejected' = TRUE /\ UNCHANGED <<tr, l>>
Next == Step \/ Reject \/ Done
Spec == Init /\ [][Next]_v
ASSUME TLCSet(1, 0)
Accepted == PrintT(<<"ACCEPTED", TLCGet(1), "OF", Len(Traces)>>)
=============================================================================
