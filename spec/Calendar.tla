------------------------------- MODULE Calendar -------------------------------
(* The proleptic Gregorian calendar and the day count (modified Julian date)   *)
(* in which hydrobricks expresses every date.                                  *)
EXTENDS Integers, Sequences, Num, TLC

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysInMonth(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                     ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysInMonth(y, m)

(* closed form: days since 1858-11-17 *)
DaysFromCivil(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400
      yoe == y - era * 400
      mp == IF m > 2 THEN m - 3 ELSE m + 9
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468 + 40587

CivilFromDays(n) ==
  LET z == n - 40587 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d>>

DayOfYear(y, m, d) == DaysFromCivil(y, m, d) - DaysFromCivil(y, 1, 1) + 1

(* a date and time as a day count *)
MjdOf(y, m, d, h, mi, s) == NAdd(DaysFromCivil(y, m, d), NDiv(NOfInt(h * 3600 + mi * 60 + s), "86400"))
(* day number and second of the day nearest to a day count *)
SplitMjd(x) ==
  LET d0 == NToInt(NFloor(x))
      s0 == NToInt(NFloor(NAdd(NMul(NSub(x, d0), 86400), "0.5")))
  IN IF s0 >= 86400 THEN <<d0 + 1, s0 - 86400>> ELSE <<d0, s0>>
TimeOf(x) ==
  LET q == SplitMjd(x)  c == CivilFromDays(q[1])
  IN c \o <<q[2] \div 3600, (q[2] % 3600) \div 60, q[2] % 60>>

(* the same instant, to a tenth of a second *)
SameInstant(a, b) == NFinite(a) /\ NFinite(b) /\ NLt(NAbs(NSub(a, b)), "1.2e-6")

P2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
P4(n) == ToString(n)
(* the textual forms of each date format; sep: separator, k: which time form *)
DateText(order, sep, y, m, d) ==
  IF order = "ymd" THEN P4(y) \o sep \o P2(m) \o sep \o P2(d) ELSE P2(d) \o sep \o P2(m) \o sep \o P4(y)
TimeText(k, h, mi, s) ==
  CASE k = "hms" -> P2(h) \o ":" \o P2(mi) \o ":" \o P2(s)
    [] k = "hm" -> P2(h) \o ":" \o P2(mi)
    [] k = "hmscompact" -> P2(h) \o P2(mi) \o P2(s)
    [] OTHER -> ""
Amount(u, n) == CASE u = "week" -> NOfInt(7 * n) [] u = "day" -> NOfInt(n)
                  [] u = "hour" -> NDiv(NOfInt(n), "24") [] OTHER -> NDiv(NOfInt(n), "1440")
=============================================================================
