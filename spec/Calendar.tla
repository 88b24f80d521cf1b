------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Certificate validity: the civil calendar, the text form of times in     *)
(* certificates (RFC 5280 4.1.2.5.1: YYMMDDHHMMSSZ, years 1950 to 2049)    *)
(* and the question whether a moment lies in a period.                     *)
(* Moments are <<days since 1970-01-01, seconds of the day>>.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31

\* the calendar as a state machine: the next day
NextDay(c) == IF c.d < MonthLen(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
              ELSE IF c.m < 12 THEN [c EXCEPT !.m = @ + 1, !.d = 1]
              ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]

\* closed form (days since the era of March 1st, year 0)
DayNo(y, m, d) ==
  LET a  == IF m <= 2 THEN y - 1 ELSE y
      mm == IF m > 2 THEN m - 3 ELSE m + 9
      yy == a % 400
      e  == a \div 400
      dy == ((153 * mm + 2) \div 5) + d - 1
  IN e * 146097 + yy * 365 + (yy \div 4) - (yy \div 100) + dy - 719468

Digit(c) == c >= 48 /\ c <= 57
Bad == [ok |-> FALSE, d |-> 0, s |-> 0]
\* text (sequence of bytes) -> moment
Moment(t) ==
  IF Len(t) # 13 \/ t[13] # 90 \/ \E i \in 1..12 : ~Digit(t[i]) THEN Bad
  ELSE LET two(i) == (t[i] - 48) * 10 + t[i + 1] - 48
           yy == two(1)
           y == IF yy < 50 THEN 2000 + yy ELSE 1900 + yy
           mo == two(3)
           d == two(5)
           h == two(7)
           mi == two(9)
           s == two(11)
       IN IF mo < 1 \/ mo > 12 THEN Bad
          ELSE IF d < 1 \/ d > MonthLen(y, mo) \/ h > 23 \/ mi > 59 \/ s > 59 THEN Bad
          ELSE [ok |-> TRUE, d |-> DayNo(y, mo, d), s |-> h * 3600 + mi * 60 + s]

Before(a, b) == a.d < b.d \/ (a.d = b.d /\ a.s < b.s)
Inside(nb, na, now) == ~Before(now, nb) /\ ~Before(na, now)

\* may a certificate with these texts be accepted at this moment?
MustAccept(nbt, nat, now) ==
  LET nb == Moment(nbt)
      na == Moment(nat)
  IN nb.ok /\ na.ok /\ Inside(nb, na, now)

Digits2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Text(y, m, d, s) == Digits2(y % 100) \o Digits2(m) \o Digits2(d) \o Digits2(s \div 3600)
                    \o Digits2((s % 3600) \div 60) \o Digits2(s % 60) \o <<90>>
=============================================================================
