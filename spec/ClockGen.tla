------------------------------- MODULE ClockGen -------------------------------
(* What the clock driver is asked to encode and render: sequences of timestamps, and offsets from a reference point. *)
EXTENDS Clock, TLC, Json
CONSTANTS What, MaxLen, MinLen
VARIABLES ops, done
v == <<ops, done>>
F == 65535
\* extremes, the neighbourhood of every width the encoding of a difference can have, and ordinary values
Stamps == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 255>>, <<0, 0, 0, 256>>, <<0, 0, 1, 0>>, <<0, 0, 255, F>>, <<0, 0, 256, 0>>, <<0, 0, F, F>>, <<0, 1, 0, 0>>,
           <<0, 1, 0, 1>>, <<0, 256, 0, 0>>, <<1, 0, 0, 0>>, <<256, 0, 0, 0>>, <<32767, F, F, F>>, <<32768, 0, 0, 0>>, <<F, F, F, F>>, <<F, F, F, 0>>, <<F, F, 0, 0>>,
           <<4660, 22136, 37035, 52719>>, <<4660, 22136, 37035, 52720>>, <<4660, 22136, 37036, 52719>>, <<4660, 22137, 37035, 52719>>}
Few == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 255, F>>, <<0, 1, 0, 0>>, <<32767, F, F, F>>, <<F, F, F, F>>, <<4660, 22136, 37035, 52719>>, <<4660, 22136, 37036, 52719>>}
P(d, s, n) == [day |-> d, sec |-> s, ns |-> n]
Refs == {P(0, 0, 0), P(DayOf(2000, 2, 29), 86399, 0), P(DayOf(2038, 1, 19), 11640, 0), P(DayOf(2026, 11, 18), 72000, 0), P(DayOf(2100, 2, 28), 43200, 0),
         P(DayOf(2027, 3, 14), 25199, 0), P(DayOf(2027, 11, 7), 21599, 0), P(DayOf(2028, 12, 31), 86399, 0), P(DayOf(2027, 10, 2), 57599, 0), P(DayOf(2028, 4, 1), 57599, 0)}
Days == {0, 1, -1, 2, 59, -60, 365, -365, -366, 1461, 9000, -3653}
Secs == {0, 1, 59, 3600, 43199, 86399}
Nanos == {0, 1, 999, 1000, 499999999, 500000000, 999000000, 999999998, 999999999}
Rates == {"1e9", "2e9", "250e6", "1e6", "2993812345.678", "1999999999.5"}
DaysFor(r) == IF r \in {"1e6", "250e6"} THEN Days \cup {36525, 73050, -7305} ELSE Days
Init == ops = <<>> /\ done = FALSE
\* timestamps: "n" starts another extent
Stamp == \E t \in (IF What = "all" THEN Few ELSE Stamps) : \E n \in {FALSE, TRUE} : ops' = Append(ops, [t |-> t, n |-> n]) /\ UNCHANGED done
\* the C library does not apply POSIX daylight saving rules before 1971
Show == \E z \in DOMAIN Zones, ref \in Refs, r \in Rates :
          /\ Zones[z].rule # <<>> => ref.day > 400
          /\ ops' = <<[zone |-> z, ref |-> ref, rate |-> r,
                       offs |-> [i \in 1..24 |-> [off |-> P(RandomElement(DaysFor(r)), RandomElement(Secs), RandomElement(Nanos)), x |-> RandomElement({0, 1, -1})]]]>>
          /\ UNCHANGED done
Next == \/ ~done /\ What # "show" /\ Len(ops) < MaxLen /\ Stamp
        \/ ~done /\ What = "show" /\ ops = <<>> /\ Show
        \/ ~done /\ Len(ops) >= MinLen /\ PrintT(ToJson(ops)) /\ done' = TRUE /\ UNCHANGED ops
=============================================================================
