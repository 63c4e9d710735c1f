--------------------------------- MODULE Time --------------------------------
(* Calendar, system times and UTC.  An instant is <<day, ms>>: the number of  *)
(* days since 1970-01-01 and the milliseconds of the day.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MSD == 86400000

\* ------------------------------------------------------------------ calendar
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MLen(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                [] m \in {4, 6, 9, 11} -> 30
                [] OTHER -> IF Leap(y) THEN 29 ELSE 28
Before(m) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>[m]
Doy(y, m, d) == Before(m) + d + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
\* days since 1970-01-01 (closed form; the chain of days is in Time_MC)
DayNum(y, m, d) ==
  365*(y - 1970) + ((y - 1) \div 4 - 492) - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)
  + Doy(y, m, d) - 1
YearOf(n) == CHOOSE y \in ((1970 + n \div 366) - 1)..(1970 + n \div 365) :
                DayNum(y, 1, 1) <= n /\ n < DayNum(y + 1, 1, 1)
Date(n) ==
  LET y == YearOf(n)
      k == n - DayNum(y, 1, 1) + 1
      m == CHOOSE i \in 1..12 : Doy(y, i, 1) <= k /\ (i = 12 \/ k < Doy(y, i + 1, 1))
  IN <<y, m, k - Doy(y, m, 1) + 1>>

\* ------------------------------------------------------------------ instants
Norm(d, ms) == <<d + ms \div MSD, ms % MSD>>
Plus(t, dd, dms) == Norm(t[1] + dd, t[2] + dms)
Minus(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
AbsD(x) == IF x[1] < 0 THEN Minus(<<0, 0>>, x) ELSE x

\* --------------------------------------------- week and seconds of a system
Epoch0(s) == CASE s = "gps" -> DayNum(1980, 1, 6)
               [] s = "gst" -> DayNum(1999, 8, 22)
               [] s = "bdt" -> DayNum(2006, 1, 1)
Week(s, t) == (t[1] - Epoch0(s)) \div 7
Tow(s, t) == ((t[1] - Epoch0(s)) % 7) * MSD + t[2]
FromWeek(s, w, tow) == Norm(Epoch0(s) + 7*w, tow)

\* ------------------------------------------------------------- leap seconds
LeapDays == <<<<1981, 7>>, <<1982, 7>>, <<1983, 7>>, <<1985, 7>>, <<1988, 1>>, <<1990, 1>>,
              <<1991, 1>>, <<1992, 7>>, <<1993, 7>>, <<1994, 7>>, <<1996, 1>>, <<1997, 7>>,
              <<1999, 1>>, <<2006, 1>>, <<2009, 1>>, <<2012, 7>>, <<2015, 7>>, <<2017, 1>>>>
LeapNum == [i \in 1..Len(LeapDays) |-> DayNum(LeapDays[i][1], LeapDays[i][2], 1)]
\* GPST - UTC at a UTC instant, and at a GPS instant
LeapsU(u) == Cardinality({i \in 1..Len(LeapNum) : u[1] >= LeapNum[i]})
LeapsG(t) == Cardinality({i \in 1..Len(LeapNum) : Leq(<<LeapNum[i], 1000*i>>, t)})
ToUtc(t) == Plus(t, 0, -1000*LeapsG(t))
FromUtc(u) == Plus(u, 0, 1000*LeapsU(u))

\* UTC of the time of day of Moscow nearest to the reference (a GPS time)
GloTime(tref, tod) ==
  LET m == Plus(ToUtc(tref), 0, 10800000)
      c == {<<m[1] + k, tod>> : k \in {-1, 0, 1}}
      best == CHOOSE x \in c : \A y \in c : Leq(AbsD(Minus(x, m)), AbsD(Minus(y, m)))
  IN Plus(best, 0, -10800000)

\* the nearest of t and its neighbours one period before and after
Adjust(t, tref, days) ==
  LET c == {Plus(t, k*days, 0) : k \in {-1, 0, 1}} IN
  CHOOSE x \in c : \A y \in c : Leq(AbsD(Minus(x, tref)), AbsD(Minus(y, tref)))
TodTime(t0, tod) == Adjust(<<t0[1], tod>>, t0, 1)

\* ------------------------------------------------------------------- events
TmStart(c) == [x |-> 0]
TmSets == {}
TmInv(st) == TRUE
Inst(t) == [d |-> t[1], ms |-> t[2]]
Epo(t) == LET c == Date(t[1]) IN <<c[1], c[2], c[3], t[2] \div 3600000, (t[2] \div 60000) % 60, t[2] % 60000>>
FromEpo(ep) == <<DayNum(ep[1], ep[2], ep[3]), ep[4]*3600000 + ep[5]*60000 + ep[6]>>
Out(e) ==
  CASE e.op = "e2t" -> Inst(FromEpo(e.ep))
    [] e.op = "t2e" -> [ep |-> Epo(e.t)]
    [] e.op = "doy" -> [doy |-> Doy(Date(e.t[1])[1], Date(e.t[1])[2], Date(e.t[1])[3]), ms |-> e.t[2]]
    [] e.op = "w2t" -> Inst(FromWeek(e.s, e.w, e.tow))
    [] e.op = "t2w" -> [w |-> Week(e.s, e.t), tow |-> Tow(e.s, e.t)]
    [] e.op = "add" -> Inst(Plus(e.t, e.dd, e.dms))
    [] e.op = "diff" -> Inst(Minus(e.a, e.b))
    [] e.op = "utc" -> Inst(ToUtc(e.t))
    [] e.op = "gps" -> Inst(FromUtc(e.t))
    [] e.op = "g2b" -> Inst(Plus(e.t, 0, -14000))
    [] e.op = "b2g" -> Inst(Plus(e.t, 0, 14000))
    [] e.op = "glo" -> Inst(GloTime(e.t, e.tod))
    [] e.op = "adj" -> Inst(Adjust(e.t, e.ref, e.days))
    [] e.op = "tod" -> Inst(TodTime(e.t, e.tod))
    [] e.op = "doy2t" -> Inst(<<DayNum(e.y, 1, 1) + e.doy - 1, e.ms>>)
    [] e.op = "gt" -> [r |-> IF Leq(e.a, e.b) THEN 0 ELSE 1]
TmDo(st, e) == [st |-> st, out |-> Out(e)]
==============================================================================
