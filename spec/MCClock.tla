------------------------------- MODULE MCClock -------------------------------
(* The closed form of the calendar against walking from day to day, and the differential encoding of timestamps
   with W-bit arithmetic, extents and arbitrary timestamps. *)
EXTENDS Clock, TLC
CONSTANTS FirstDay, LastDay, W, MaxMsgs
VARIABLES day, date, wd, sent, recv, encLast, decLast
v == <<day, date, wd, sent, recv, encLast, decLast>>
Mod == 2 ^ W
Signed(x) == IF x >= Mod \div 2 THEN x - Mod ELSE x
CalInit == day = 0 /\ date = <<1970, 1, 1>> /\ wd = 4
EncInit == sent = <<>> /\ recv = <<>> /\ encLast = 0 /\ decLast = 0
Init == CalInit /\ EncInit
Walk == day < LastDay /\ sent = <<>> /\ day' = day + 1 /\ date' = NextDate(date) /\ wd' = (wd + 1) % 7 /\ UNCHANGED <<sent, recv, encLast, decLast>>
\* encode: the signed difference to the previous message of the extent; decode: add it back
Message == day = 0 /\ Len(sent) < MaxMsgs /\ \E ts \in 0..Mod - 1 :
   LET delta == Signed((ts - encLast) % Mod) IN
   /\ sent' = Append(sent, ts) /\ encLast' = ts
   /\ decLast' = (decLast + delta) % Mod /\ recv' = Append(recv, decLast') /\ UNCHANGED <<day, date, wd>>
Extent == day = 0 /\ sent # <<>> /\ encLast' = 0 /\ decLast' = 0 /\ UNCHANGED <<day, date, wd, sent, recv>>
Next == Walk \/ Message \/ Extent
Spec == Init /\ [][Next]_v
CalendarOk == Civil(day) = date /\ DayOf(date[1], date[2], date[3]) = day /\ Weekday(day) = wd
TimesSurvive == sent = recv
\* noon local time never jumps over a date, in any zone
ZonesOk == \A z \in DOMAIN Zones : LET n == Local([day |-> day, sec |-> 43200, ns |-> 0], z) IN n[3] \in 1..31 /\ n[4] \in 0..23
=============================================================================
