------------------------------ MODULE Calendar ------------------------------
(* Instants as calendar time.  An instant is [d, s, u]: days since the first *)
(* of January 1970, second of the day, microsecond.  Zones are either UTC or *)
(* given by offsets and the rules of daylight saving time (POSIX style).     *)
EXTENDS Text

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
YearDays(y) == IF Leap(y) THEN 366 ELSE 365
MonthDays(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
(* Days before the first of January of the year y, counted from year 1. *)
Before(y) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400
Epoch == Before(1970)

(* The year a day (counted from 1970) belongs to: the only one that fits. *)
YearOf(d) == LET n == d + Epoch
                 g == n \div 366 + 1
             IN CHOOSE y \in g..(g + 10) : Before(y) <= n /\ n < Before(y + 1)
RECURSIVE MonthOf(_, _, _)
MonthOf(y, yd, m) == IF yd < MonthDays(y)[m] THEN <<m, yd + 1>> ELSE MonthOf(y, yd - MonthDays(y)[m], m + 1)

(* Broken down: yday from 0, weekday 0 is Sunday. *)
Fields(d, s) ==
  LET y == YearOf(d)
      yd == d + Epoch - Before(y)
      md == MonthOf(y, yd, 1)
  IN [ y |-> y, yday |-> yd, mon |-> md[1], mday |-> md[2], wday |-> (4 + d) % 7,
       h |-> s \div 3600, m |-> (s % 3600) \div 60, s |-> s % 60 ]

(* ---- zones ---------------------------------------------------------------- *)
(* A zone: [off, name, dst, doff, dname, from, to]; a rule [m, w, d, t]: at   *)
(* second t (wall clock) of the w-th (5: last) weekday d of month m.          *)
RECURSIVE MonthsBefore(_, _)
MonthsBefore(y, m) == IF m = 1 THEN 0 ELSE MonthsBefore(y, m - 1) + MonthDays(y)[m - 1]
Day(y, m, w, d) ==
  LET first == Before(y) - Epoch + MonthsBefore(y, m)
      wd == (4 + first) % 7
      c == first + ((d - wd + 7) % 7) + 7 * (w - 1)
  IN IF c >= first + MonthDays(y)[m] THEN c - 7 ELSE c
(* [d, s] moved by n seconds (at most a few days). *)
Shift(d, s, n) == LET x == s + n + 10 * 86400 IN <<d - 10 + x \div 86400, x % 86400>>
Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Change(y, r, off) == Shift(Day(y, r.m, r.w, r.d), 0, r.t - off)
InSummer(z, d, s) ==
  z.dst /\ LET std == Shift(d, s, z.off)
               y == YearOf(std[1])
               a == Change(y, z.from, z.off)
               b == Change(y, z.to, z.doff)
           IN IF Earlier(a, b) THEN ~Earlier(<<d, s>>, a) /\ Earlier(<<d, s>>, b)
              ELSE ~Earlier(<<d, s>>, a) \/ Earlier(<<d, s>>, b)
Utc == [off |-> 0, name |-> B("GMT"), dst |-> FALSE]
OffsetAt(z, d, s) == IF InSummer(z, d, s) THEN z.doff ELSE z.off
NameAt(z, d, s) == IF InSummer(z, d, s) THEN z.dname ELSE z.name

(* ---- numbers of the instant ------------------------------------------------ *)
(* Seconds since the epoch, as digits: days * 86400 + s without overflow. *)
EpochDigits(d, s) == StripZ(NatDigits(d * 864 + s \div 100) \o LET r == s % 100 IN <<r \div 10, r % 10>>)
MicroDigits(d, s, u) == StripZ(EpochDigits(d, s) \o DigitsOf(Fixed(u, 6)))

(* ---- patterns --------------------------------------------------------------- *)
Wdays == <<B("Sunday"), B("Monday"), B("Tuesday"), B("Wednesday"), B("Thursday"), B("Friday"), B("Saturday")>>
Months == <<B("January"), B("February"), B("March"), B("April"), B("May"), B("June"), B("July"), B("August"),
            B("September"), B("October"), B("November"), B("December")>>
Abbr(s) == SubSeq(s, 1, 3)
Spaced(n, w) == LET s == ShowNat(n) IN Rep(32, w - Len(s)) \o s
Hour12(h) == IF h % 12 = 0 THEN 12 ELSE h % 12
(* ISO 8601 week number and its year: the week with the year's first Thursday is 1. *)
IsoMonday(y) == LET j4 == Before(y) - Epoch + 3 IN j4 - ((j4 + 3) % 7)       \* Monday of week 1
Iso(d) == LET y == YearOf(d)
              yy == IF d < IsoMonday(y) THEN y - 1 ELSE IF d >= IsoMonday(y + 1) THEN y + 1 ELSE y
          IN [y |-> yy, w |-> (d - IsoMonday(yy)) \div 7 + 1]
OffsetText(o) == LET a == IF o < 0 THEN -o ELSE o
                 IN <<IF o < 0 THEN 45 ELSE 43>> \o Fixed(a \div 3600, 2) \o Fixed((a % 3600) \div 60, 2)

Known == {B("aAbBcCdDeFgGhHIjklmMnpPrRsStTuUVwWxXyYzZf%")[i] : i \in 1..42}

(* One conversion; t: [d, s, u] of the instant, l: [d, s] on the wall, F: its fields. *)
Conv(c, t, z, l, F) ==
  LET ymd == Fixed(F.y, 4) \o <<45>> \o Fixed(F.mon, 2) \o <<45>> \o Fixed(F.mday, 2)
      mdy == Fixed(F.mon, 2) \o <<47>> \o Fixed(F.mday, 2) \o <<47>> \o Fixed(F.y % 100, 2)
      hm == Fixed(F.h, 2) \o <<58>> \o Fixed(F.m, 2)
      hms == hm \o <<58>> \o Fixed(F.s, 2)
      ampm == IF F.h < 12 THEN B("AM") ELSE B("PM")
  IN CASE c = Ch("a") -> Abbr(Wdays[F.wday + 1])
       [] c = Ch("A") -> Wdays[F.wday + 1]
       [] c \in {Ch("b"), Ch("h")} -> Abbr(Months[F.mon])
       [] c = Ch("B") -> Months[F.mon]
       [] c = Ch("c") -> Abbr(Wdays[F.wday + 1]) \o <<32>> \o Abbr(Months[F.mon]) \o <<32>> \o Spaced(F.mday, 2)
                         \o <<32>> \o hms \o <<32>> \o ShowNat(F.y)
       [] c = Ch("C") -> Fixed(F.y \div 100, 2)
       [] c = Ch("d") -> Fixed(F.mday, 2)
       [] c = Ch("D") -> mdy
       [] c = Ch("e") -> Spaced(F.mday, 2)
       [] c = Ch("F") -> ymd
       [] c = Ch("g") -> Fixed(Iso(l[1]).y % 100, 2)
       [] c = Ch("G") -> ShowNat(Iso(l[1]).y)
       [] c = Ch("H") -> Fixed(F.h, 2)
       [] c = Ch("I") -> Fixed(Hour12(F.h), 2)
       [] c = Ch("j") -> Fixed(F.yday + 1, 3)
       [] c = Ch("k") -> Spaced(F.h, 2)
       [] c = Ch("l") -> Spaced(Hour12(F.h), 2)
       [] c = Ch("m") -> Fixed(F.mon, 2)
       [] c = Ch("M") -> Fixed(F.m, 2)
       [] c = Ch("n") -> <<LF>>
       [] c = Ch("p") -> ampm
       [] c = Ch("P") -> IF F.h < 12 THEN B("am") ELSE B("pm")
       [] c = Ch("r") -> Fixed(Hour12(F.h), 2) \o <<58>> \o Fixed(F.m, 2) \o <<58>> \o Fixed(F.s, 2) \o <<32>> \o ampm
       [] c = Ch("R") -> hm
       [] c = Ch("s") -> Show(EpochDigits(t.d, t.s))
       [] c = Ch("S") -> Fixed(F.s, 2)
       [] c = Ch("t") -> <<Tab>>
       [] c \in {Ch("T"), Ch("X")} -> hms
       [] c = Ch("u") -> ShowNat(IF F.wday = 0 THEN 7 ELSE F.wday)
       [] c = Ch("U") -> Fixed((F.yday + 7 - F.wday) \div 7, 2)
       [] c = Ch("V") -> Fixed(Iso(l[1]).w, 2)
       [] c = Ch("w") -> ShowNat(F.wday)
       [] c = Ch("W") -> Fixed((F.yday + 7 - ((F.wday + 6) % 7)) \div 7, 2)
       [] c = Ch("x") -> mdy
       [] c = Ch("y") -> Fixed(F.y % 100, 2)
       [] c = Ch("Y") -> ShowNat(F.y)
       [] c = Ch("z") -> OffsetText(OffsetAt(z, t.d, t.s))
       [] c = Ch("Z") -> NameAt(z, t.d, t.s)
       [] c = Ch("f") -> Fixed(t.u, 6)
       [] c = Ch("%") -> <<37>>

(* Are all conversions of the pattern ones that are specified here? *)
RECURSIVE Specified(_, _)
Specified(p, i) == LET k == FirstIn(p, i, {37})
                   IN k > Len(p) \/ (k < Len(p) /\ p[k + 1] \in Known /\ Specified(p, k + 2))
RECURSIVE Pieces(_, _, _, _, _, _)
Pieces(p, i, t, z, l, F) ==
  LET k == FirstIn(p, i, {37}) IN
  IF k > Len(p) THEN <<SubSeq(p, i, k - 1)>>
  ELSE <<SubSeq(p, i, k - 1), Conv(p[k + 1], t, z, l, F)>> \o Pieces(p, k + 2, t, z, l, F)
Strftime(p, t, z) == LET l == Shift(t.d, t.s, OffsetAt(z, t.d, t.s))
                     IN Cat(Pieces(p, 1, t, z, l, Fields(l[1], l[2])))
DefaultPattern == B("%Y-%m-%d %H:%M:%S.%f")
=============================================================================
