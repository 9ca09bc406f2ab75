-------------------------------- MODULE Clock --------------------------------
(* Time in a log: how a timestamp survives the differential encoding, and which local date and time it stands for. *)
EXTENDS Integers, Sequences
\* ---- calendar: instants are [day, sec, ns] since 1970-01-01T00:00:00Z, sec in 0..86399, ns in 0..999999999
Day == 86400
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
Civil(day) ==
  LET z == day + 719468  era == z \div 146097  doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)  mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - (153 * mp + 2) \div 5 + 1>>
DayOf(y, m, d) ==                  \* the inverse
  LET yy == IF m <= 2 THEN y - 1 ELSE y  era == yy \div 400  yoe == yy - era * 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
  IN era * 146097 + yoe * 365 + yoe \div 4 - yoe \div 100 + doy - 719468
Weekday(day) == (day + 4) % 7      \* 0 is Sunday
NextDate(c) == IF c[3] < DaysIn(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
               ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>
Norm(day, sec, ns) == LET s == sec + ns \div 1000000000 IN [day |-> day + s \div Day, sec |-> s % Day, ns |-> ns % 1000000000]
Plus(a, b) == Norm(a.day + b.day, a.sec + b.sec, a.ns + b.ns)
AddSec(a, s) == Norm(a.day, a.sec + s, a.ns)
\* ---- time zones: seconds east of Greenwich, and the daylight saving rules of POSIX TZ strings (Mm.w.0)
Zones == [UTC |-> [std |-> 0, rule |-> <<>>],
          IST |-> [std |-> 19800, rule |-> <<>>],
          NPT |-> [std |-> 20700, rule |-> <<>>],
          WEST |-> [std |-> -39600, rule |-> <<>>],
          EST |-> [std |-> -18000, rule |-> <<<<3, 2>>, <<11, 1>>>>],
          AEST |-> [std |-> 36000, rule |-> <<<<10, 1>>, <<4, 1>>>>]]
Sunday(y, m, w) == LET f == DayOf(y, m, 1) IN f + ((7 - Weekday(f)) % 7) + 7 * (w - 1)
Before(d1, s1, d2, s2) == d1 < d2 \/ (d1 = d2 /\ s1 < s2)
\* forward at 2:00 standard time, back at 2:00 daylight saving time, which is 1:00 standard time
Saving(t, z) ==
  LET y == Civil(t.day)[1]  a == Sunday(y, z.rule[1][1], z.rule[1][2])  b == Sunday(y, z.rule[2][1], z.rule[2][2])
      started == ~Before(t.day, t.sec, a, 7200)  ended == ~Before(t.day, t.sec, b, 3600)
  IN IF a < b THEN started /\ ~ended ELSE started \/ ~ended
Local(t, zone) ==
  LET z == Zones[zone]  s == AddSec(t, z.std)  l == IF z.rule # <<>> /\ Saving(s, z) THEN AddSec(s, 3600) ELSE s
      c == Civil(l.day)
  IN <<c[1], c[2], c[3], l.sec \div 3600, (l.sec \div 60) % 60, l.sec % 60>>
\* A rendering is right if it is the local time of an instant within tol nanoseconds of t, with nine digits.
RightTime(got, digits, t, zone, tol) ==
  /\ digits = 9
  /\ \E d \in {0, 1, -1} : /\ LET x == d * 1000000000 + got[7] - t.ns IN x <= tol /\ -x <= tol
                           /\ SubSeq(got, 1, 6) = Local(AddSec(t, d), zone)
\* Far from the reference point the arithmetic in double precision costs nanoseconds (2^-52 of the distance).
Tolerance(off) == (IF off.day < 0 THEN -off.day ELSE off.day) \div 20
\* A clock of a given rate cannot represent every nanosecond; x ticks are added to the nearest tick.
Slack(r, ns, k) ==
  LET x == IF k < 0 THEN -k ELSE k IN
  CASE r \in {"1e9", "2e9"} -> x [] r = "250e6" -> (IF ns % 4 = 0 THEN 0 ELSE 3) + 4 * x
    [] r = "1e6" -> (IF ns % 1000 = 0 THEN 0 ELSE 501) + 1000 * x [] OTHER -> 1 + x
\* ---- 64-bit time stamps as four 16-bit limbs, most significant first
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
LessEq(a, b) == a = b \/ Less(a, b)
=============================================================================
