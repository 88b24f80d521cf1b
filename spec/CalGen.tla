------------------------------- MODULE CalGen -------------------------------
(***************************************************************************)
(* 1. CAL: the calendar as a state machine from 1950-01-01 to 2049-12-31   *)
(*    (one step per day); the closed form must agree with it, and text     *)
(*    forms must be read back.                                             *)
(* 2. generators: for every day of 1950..2049 a certificate starting or    *)
(*    ending on it, observed one second before, at, and after; every       *)
(*    second of the day; ill-formed texts.                                 *)
(***************************************************************************)
EXTENDS Calendar, FiniteSets, TLC, Json, IOUtils
Profile == IOEnv.PROFILE
SIM     == IOEnv.SIM = "1"
VARIABLES c, n, out
vars == <<c, n, out>>

Emit(st) == st # <<>> => PrintT(<<"SCRIPT", ToJson([fam |-> "time", steps |-> st])>>)
Flat(ss) == LET R[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE R[i - 1] \o ss[i] IN R[Len(ss)]
Sec(x) == x.d * 86400 + x.s     \* only used far from overflow
Add(x, k) == LET t == x.s + k IN
             IF t < 0 THEN [d |-> x.d - 1, s |-> t + 86400] ELSE IF t >= 86400 THEN [d |-> x.d + 1, s |-> t - 86400] ELSE [d |-> x.d, s |-> t]
At(nb, na, x) == [op |-> "valid", nb |-> nb, na |-> na, d |-> x.d, s |-> x.s]
InRange(x) == x.d >= 0 /\ x.d <= 29219 /\ (x.d > 0 \/ x.s > 0)

Early == Text(1951, 1, 1, 0)
Late  == Text(2049, 12, 31, 86399)
\* seconds of the day: differs from day to day
SecOf(k) == CASE k % 5 = 0 -> 0 [] k % 5 = 1 -> 86399 [] OTHER -> ((k % 40000) * 7919) % 86400
Around(t) ==
  LET x == Moment(t)
      pts == << Add(x, -1), [d |-> x.d, s |-> x.s], Add(x, 1) >>
      far == << Add(x, -86400 + 1), Add(x, 86399) >>
      use == SelectSeq(pts \o far, InRange)
      nxt == IF InRange([d |-> x.d + 400, s |-> 5]) THEN << [d |-> x.d + 400, s |-> 5] >> ELSE <<>>
      prv == IF InRange([d |-> x.d - 400, s |-> 5]) THEN << [d |-> x.d - 400, s |-> 5] >> ELSE <<>>
      all == use \o nxt \o prv
  IN Flat([i \in 1..Len(all) |-> << At(t, Late, all[i]), At(Early, t, all[i]) >>])

\* the four decisive moments, and alternately a day off
Near(t, k) ==
  LET x == Moment(t)
      b == SelectSeq(<< Add(x, -1), [d |-> x.d, s |-> x.s], IF k % 2 = 0 THEN Add(x, 86399) ELSE [d |-> x.d + 366, s |-> 5] >>, InRange)
      a == SelectSeq(<< [d |-> x.d, s |-> x.s], Add(x, 1), IF k % 2 = 0 THEN Add(x, 1 - 86400) ELSE [d |-> x.d - 366, s |-> 5] >>, InRange)
  IN [i \in 1..Len(b) |-> At(t, Late, b[i])] \o [i \in 1..Len(a) |-> At(Early, t, a[i])]
DayScript(y, m) == IF IOEnv.TIER = "quick" THEN Flat([d \in 1..MonthLen(y, m) |-> Near(Text(y, m, d, SecOf(y * 372 + m * 31 + d)), d)]) ELSE Flat([d \in 1..MonthLen(y, m) |-> Around(Text(y, m, d, SecOf(y * 372 + m * 31 + d)))])
\* every second of one hour of a day as start and end (both bounds within the period)
HourScript(h) == Flat([k \in 1..3600 |-> LET s == h * 3600 + k - 1
                                             t == Text(2004, 2, 29, s)
                                             x == Moment(t)
                                             z == Add(x, IF k % 3 = 0 THEN -1 ELSE IF k % 3 = 1 THEN 1 ELSE 0)
                                         IN << At(t, Late, [d |-> x.d, s |-> x.s]), At(t, Late, z), At(Early, t, z) >>])
\* pairs start / end
Pairs == { <<Text(y, m, d, s), Text(y2, m2, d2, s2)>> :
             <<y, m, d, s>> \in {<<1999, 12, 31, 86399>>, <<2000, 2, 29, 1>>, <<2012, 3, 1, 0>>, <<2024, 12, 31, 50000>>, <<1970, 1, 1, 1>>, <<1950, 1, 1, 0>>, <<1969, 12, 31, 86399>>},
             <<y2, m2, d2, s2>> \in {<<2000, 1, 1, 0>>, <<2000, 3, 1, 0>>, <<2012, 2, 29, 86399>>, <<2049, 12, 31, 86399>>, <<1950, 1, 1, 0>>, <<1969, 12, 31, 86399>>, <<1970, 1, 1, 0>>, <<2025, 1, 1, 0>>} }
PairScript(p) ==
  LET a == Moment(p[1])
      b == Moment(p[2])
      pts == SelectSeq(<< Add(a, -1), Add(a, 0), Add(a, 1), Add(b, -1), Add(b, 0), Add(b, 1), [d |-> 0, s |-> 1], [d |-> 1, s |-> 0], [d |-> 29219, s |-> 86399] >>, InRange)
  IN [i \in 1..Len(pts) |-> At(p[1], p[2], pts[i])]

\* ill-formed texts, as start (with a late end) and as end (with an early start), at several moments
Good == Text(2003, 6, 15, 43200)
Set(t, i, v) == [t EXCEPT ![i] = v]
Field(i, a, b) == Set(Set(Good, i, a), i + 1, b)
D(k) == 48 + k
BadTexts ==
     {Field(3, D(a), D(b)) : <<a, b>> \in {<<0, 0>>, <<1, 3>>, <<1, 9>>, <<2, 0>>, <<9, 9>>}}
  \cup {Field(5, D(a), D(b)) : <<a, b>> \in {<<0, 0>>, <<3, 1>>, <<3, 2>>, <<4, 0>>, <<9, 9>>}}
  \cup {Field(7, D(a), D(b)) : <<a, b>> \in {<<2, 4>>, <<2, 5>>, <<9, 9>>}}
  \cup {Field(9, D(a), D(b)) : <<a, b>> \in {<<6, 0>>, <<6, 1>>, <<7, 5>>, <<9, 9>>}}
  \cup {Field(11, D(a), D(b)) : <<a, b>> \in {<<6, 0>>, <<6, 1>>, <<6, 5>>, <<7, 0>>, <<9, 9>>}}
  \cup {Digits2(y % 100) \o Digits2(m) \o Digits2(d) \o SubSeq(Good, 7, 13) :
           <<y, m, d>> \in {<<y, m, d>> \in (1999..2005) \X (1..12) \X (29..32) : d > MonthLen(y, m)}}
  \cup {Set(Good, i, v) : i \in 1..12, v \in {0, 32, 43, 45, 46, 47, 58, 59, 65, 90, 97, 128, 178, 255}}
  \cup {Set(Good, 13, v) : v \in {122, 48, 0, 43, 32, 91}}
  \cup {SubSeq(Good, 1, k) : k \in 0..12}
  \cup {Good \o x : x \in {<<90>>, <<48>>, <<0>>, <<48, 48>>, <<32>>}}
  \cup {SubSeq(Good, 1, 12) \o x : x \in {<<>>, <<43, 48, 48, 48, 48>>, <<45, 49, 48, 48, 48>>, <<46, 53, 90>>, <<48, 48, 90>>}}
  \cup {<<50, 48>> \o Good, <<49, 57>> \o Good, SubSeq(Good, 1, 10) \o <<90>>, SubSeq(Good, 3, 13), <<32>> \o Good, <<90>> \o SubSeq(Good, 1, 12), <<>>,
        SubSeq(Good, 1, 10) \o <<195, 169, 90>>, SubSeq(Good, 1, 11) \o <<194, 178>>, SubSeq(Good, 1, 9) \o <<194, 178>> \o <<48, 90>>}
BadMoments == << [d |-> 0, s |-> 1], [d |-> 1, s |-> 0], [d |-> 12217, s |-> 0], [d |-> 12300, s |-> 7], [d |-> 20000, s |-> 0], [d |-> 29219, s |-> 86399] >>
BadScript(t) == Flat([i \in 1..Len(BadMoments) |-> << At(t, Late, BadMoments[i]), At(Early, t, BadMoments[i]), At(t, t, BadMoments[i]) >>])

\* random start, end and moment
Rnd(x) == RandomElement(0..86399)
RY(x)  == RandomElement(1950..2049)
RndScript(x) == Flat([i \in 1..200 |->
   LET t1 == LET y == RY(i) m == RandomElement(1..12) IN Text(y, m, RandomElement(1..MonthLen(y, m)), Rnd(i))
       t2 == LET y == RY(i) m == RandomElement(1..12) IN Text(y, m, RandomElement(1..MonthLen(y, m)), Rnd(i))
       k == RandomElement({-1, 0, 1, 60, -3600, 40000})
       a == Add(Moment(t1), k)
       b == Add(Moment(t2), k)
       r == [d |-> RandomElement(1..29219), s |-> Rnd(i)]
       o == SelectSeq(<<a, b, r>>, InRange)
   IN [j \in 1..Len(o) |-> At(t1, t2, o[j])] \o [j \in 1..Len(o) |-> At(t2, t1, o[j])]])

Params ==
  CASE Profile = "CAL"  -> {<<1950>>}
    [] Profile = "DAYS" -> (1950..2049) \X (1..12)
    [] Profile = "HOUR" -> {<<h>> : h \in 0..23}
    [] Profile = "PAIR" -> {<<p>> : p \in Pairs}
    [] Profile = "BAD"  -> {<<t>> : t \in BadTexts}
    [] Profile = "RND"  -> {<<1>>}

Init == /\ out = FALSE
        /\ n \in Params
        /\ c = IF Profile = "CAL" THEN [y |-> 1950, m |-> 1, d |-> 1, k |-> -7305] ELSE [y |-> 1970, m |-> 1, d |-> 1, k |-> 0]
Next ==
  IF Profile = "CAL"
  THEN /\ c.y < 2050
       /\ c' = LET x == NextDay([y |-> c.y, m |-> c.m, d |-> c.d]) IN [y |-> x.y, m |-> x.m, d |-> x.d, k |-> c.k + 1]
       /\ UNCHANGED <<n, out>>
  ELSE /\ ~out /\ out' = TRUE
       /\ Emit(CASE Profile = "DAYS" -> DayScript(n[1], n[2])
                 [] Profile = "HOUR" -> HourScript(n[1])
                 [] Profile = "PAIR" -> PairScript(n[1])
                 [] Profile = "BAD"  -> BadScript(n[1])
                 [] Profile = "RND"  -> RndScript(n))
       /\ UNCHANGED <<c, n>>
Spec == Init /\ [][Next]_vars

\* the closed form is the calendar; the text form is read back
ClosedForm == DayNo(c.y, c.m, c.d) = c.k
ReadBack == c.y < 2050 => LET s == ((c.k % 10000) * 6121 + 40000000) % 86400
                              x == Moment(Text(c.y, c.m, c.d, s))
                          IN x.ok /\ x.d = c.k /\ x.s = s
BadAreBad == Profile = "BAD" => ~Moment(n[1]).ok
=============================================================================
