-------------------------------- MODULE Tool --------------------------------
(* What the commands of the decompressor tool report about a log.            *)
(*                                                                           *)
(* A log is a sequence of executions; an execution a sequence of segments,   *)
(* each executed by a thread of its own, one after the other; a segment a    *)
(* sequence of messages [s site, v value, d time since the previous one].    *)
(* In the sources of statements, ` stands for a double quote.                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

(* The log statements of the program: format, arguments, what is printed     *)
(* before and after the value, and whether the first argument is an integer. *)
Site(f, a, pre, post, agg) == [f |-> f, a |-> a, pre |-> pre, post |-> post, agg |-> agg, val |-> TRUE]
Plain(f) == [f |-> f, a |-> "", pre |-> f, post |-> "", agg |-> FALSE, val |-> FALSE]
Sites == <<
    Site("count %d", ", v", "count ", "", TRUE),
    Site("count %d of %s", ", v, `x%dy`", "count ", " of x%dy", TRUE),
    Plain("plain"),
    Site("%s is %d", ", `a | b`, v", "a | b is ", "", FALSE),
    Site("%d", ", v", "", "", TRUE),
    Site("Count [%*d]", ", 1, v", "Count [", "]", TRUE),
    Site("count %d", ", v", "count ", "", TRUE),
    Site("a rather long format string, longer than the columns of a table: %ld.", ", (long)v", "a rather long format string, longer than the columns of a table: ", ".", TRUE),
    Site("%i%s%s%s", ", v, `1`, ``, `|`", "", "1|", TRUE),
    Plain(" "),
    Plain("never executed: 5%% |"),
    Site("%.*s(%d)", ", 1, `ab`, v", "a(", ")", FALSE) >>
Text(m) == Sites[m.s].pre \o (IF Sites[m.s].val THEN ToString(m.v) \o Sites[m.s].post ELSE "")
Levels == <<"ERROR", "WARNING", "NOTICE", "DEBUG">>
LevelOf(s) == Levels[(s % 4) + 1]

Segments(log) == FlattenSeq(log)
Messages(log) == FlattenSeq(FlattenSeq(log))

(* --- decompress, decompressUnordered: messages as [f file, n line, l level, t text, id thread] *)
Rendered(m, lines, file) == [f |-> file, n |-> lines[m.s], l |-> LevelOf(m.s), t |-> Text(m)]
Bare(g) == [f |-> g.f, n |-> g.n, l |-> g.l, t |-> g.t]
InOrder(log, got, lines, file) ==
    LET want == Messages(log) IN Len(got) = Len(want) /\ \A i \in DOMAIN want : Bare(got[i]) = Rendered(want[i], lines, file)
(* in file order the executions follow each other and the messages of a segment stay in order *)
RECURSIVE Sum(_)
Sum(ns) == IF ns = <<>> THEN 0 ELSE Head(ns) + Sum(Tail(ns))
Threads(got) == {got[i].id : i \in DOMAIN got}
OneExecution(ex, got, lines, file) ==
    LET segs == SelectSeq(ex, LAMBDA g : g # <<>>)
        parts == {SelectSeq(got, LAMBDA m : m.id = t) : t \in Threads(got)}
        Seg(g) == [i \in DOMAIN g |-> Rendered(g[i], lines, file)]
        Part(p) == [i \in DOMAIN p |-> Bare(p[i])]
        Count(S, x, F(_)) == Cardinality({i \in DOMAIN S : F(S[i]) = x})
        PS == SetToSeq(parts)
    IN Len(PS) = Len(segs) /\ \A i \in DOMAIN segs : Count(segs, Seg(segs[i]), Seg) = Count(PS, Seg(segs[i]), Part)
Unordered(log, got, lines, file) ==
    LET n == [i \in DOMAIN log |-> Len(FlattenSeq(log[i]))]
        Before(i) == Sum([j \in 1..(i - 1) |-> n[j]])
    IN Len(got) = Sum(n) /\ \A i \in DOMAIN log : OneExecution(log[i], SubSeq(got, Before(i) + 1, Before(i) + n[i]), lines, file)

(* --- find: the statements of the program whose format contains the string *)
Holds(f, q) == Len(q) = 0 \/ \E i \in 1..(Len(f) - Len(q) + 1) : SubSeq(f, i, i + Len(q) - 1) = q
Matching(q) == {s \in DOMAIN Sites : Holds(Sites[s].f, q)}

(* --- minMaxMean.  Numbers beyond 32 bits are pairs <<high, low>>: high * 65536 + low, 0 <= low < 65536 *)
Pair(v) == <<v \div 65536, v % 65536>>
Norm(h, l) == <<h + (l \div 65536), l % 65536>>
RECURSIVE Total(_)
Total(vs) == IF vs = <<>> THEN <<0, 0>> ELSE LET r == Total(Tail(vs)) p == Pair(Head(vs)) IN Norm(r[1] + p[1], r[2] + p[2])
Values(log, s) == [i \in DOMAIN SelectSeq(Messages(log), LAMBDA m : m.s = s) |-> SelectSeq(Messages(log), LAMBDA m : m.s = s)[i].v]
Least(vs) == CHOOSE x \in ToSet(vs) : \A y \in ToSet(vs) : x <= y
Greatest(vs) == CHOOSE x \in ToSet(vs) : \A y \in ToSet(vs) : x >= y
(* mean * n + r = total, |r| < n, r of the sign of the total *)
IsMean(mean, n, total) ==
    LET r == Norm(total[1] - mean[1] * n, total[2] - mean[2] * n)
        v == IF r[1] = 0 THEN r[2] ELSE IF r[1] = -1 THEN r[2] - 65536 ELSE 1000000
    IN /\ -n < v /\ v < n
       /\ (total[1] < 0 => v <= 0) /\ (total[1] >= 0 => v >= 0)
Percent(p100, n, all) == 2 * (p100 * all - 10000 * n) <= all + 1 /\ 2 * (10000 * n - p100 * all) <= all + 1

(* --- rcdfTime: lines <<latency, share in millionths>>, latencies in one unknown unit *)
Deltas(log) == LET m == Messages(log) IN [i \in 1..(Len(m) - 1) |-> m[i + 1].d]

Above(ds, x) == Cardinality({i \in DOMAIN ds : ds[i] > x})
Distinct(ds) == SetToSortSeq(ToSet(ds), <)
Curve(ds) == LET u == Distinct(ds) n == Len(ds) IN
    <<<<u[1], n>>>> \o [i \in 1..(Len(u) - 1) |-> <<u[i], Above(ds, u[i])>>] \o <<<<u[Len(u)], 1>>>>
Abs(x) == IF x < 0 THEN -x ELSE x
(* y is x in a unit in which the largest delta big is top *)
Same(y, x, top, big) == Abs(y * big - top * x) <= big
IsCurve(got, ds) ==
    LET want == Curve(ds) n == Len(ds) big == Greatest(ds) top == got[Len(got)][1] IN
    /\ Len(got) = Len(want)
    /\ top > 0
    /\ \A i \in DOMAIN want : Same(got[i][1], want[i][1], top, big) /\ Abs(got[i][2] * n - want[i][2] * 1000000) <= n
IsMeanDelta(y, got, ds) ==
    LET n == Len(ds) big == Greatest(ds) top == got[Len(got)][1] s == Sum(ds)
    IN Same(y, s \div n, top, big) \/ Same(y, (s + n - 1) \div n, top, big)
=============================================================================
