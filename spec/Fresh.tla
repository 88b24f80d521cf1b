------------------------------- MODULE Fresh --------------------------------
(***************************************************************************)
(* Values that must be fresh: an ideal source never hands out anything     *)
(* twice, not even in part.  A part is W consecutive bytes; a source   *)
(* of uniform bytes repeats one with a probability of about                *)
(* (number of parts)^2 / 2^65.  And no position of a value is predictable: *)
(* among many values it takes many different contents.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

W == 8
Many == 512          \* from this many values on the contents of a position are counted:
Differ == 100        \* 512 uniform bytes take fewer than 100 values (of 128) with probability < 10^-15

\* Remembered are the parts at multiples of W; looked for are all parts.  So two values may not
\* have 2 W - 1 bytes in common anywhere, nor W bytes at a multiple of W of either.
Aligned(b) == {SubSeq(b, ((i - 1) * W) + 1, i * W) : i \in 1..(Len(b) \div W)}
Odd(b) == {SubSeq(b, i, i + W - 1) : i \in {i \in 1..(Len(b) - W + 1) : i % W # 1}}

\* nor is a part the reverse or the complement of another one
Rev(w) == [i \in 1..W |-> w[W + 1 - i]]
Neg(w) == [i \in 1..W |-> 255 - w[i]]
Image(S) == {Rev(w) : w \in S} \cup {Neg(w) : w \in S}

Enough == 1200       \* (costly, and systematic: the first values of a kind tell)

Kinds == {"random", "sid", "share", "ctx", "nonce", "r"}
Source0 == [seen |-> {}, n |-> [k \in Kinds |-> 0], at |-> [k \in Kinds |-> <<>>]]

RECURSIVE Sum(_, _)
Sum(vals, i) == IF i = 0 THEN 0 ELSE (Len(vals[i].b) \div W) + Sum(vals, i - 1)

\* a batch of values leaves the source
Draw(s, vals) ==
  LET new == UNION {Aligned(vals[i].b) : i \in 1..Len(vals)}
      odd == UNION {Odd(vals[i].b) : i \in 1..Len(vals)}
      all == s.seen \cup new
      of(k) == SelectSeq(vals, LAMBDA v : v.k = k)
      cnt(k) == LET o == of(k) IN
                [j \in 1..32 |-> (IF s.n[k] = 0 THEN {} ELSE s.at[k][j]) \cup {o[i].b[j] : i \in {i \in 1..Len(o) : Len(o[i].b) >= j}}]
  IN IF /\ Cardinality(all) = Cardinality(s.seen) + Sum(vals, Len(vals))   \* none twice, none seen before
        /\ \A x \in odd : x \notin all
        /\ \A x \in Image(UNION {IF s.n[vals[i].k] < Enough THEN Aligned(vals[i].b) ELSE {} : i \in 1..Len(vals)}) : x \notin all
     THEN {[seen |-> all,
            n |-> [k \in Kinds |-> s.n[k] + Len(of(k))],
            at |-> [k \in Kinds |-> IF of(k) = <<>> THEN s.at[k] ELSE cnt(k)]]}
     ELSE {}
\* the end of the observation
Close(s) == \A k \in Kinds : s.n[k] >= Many => \A j \in 1..32 : Cardinality(s.at[k][j]) >= Differ
=============================================================================
