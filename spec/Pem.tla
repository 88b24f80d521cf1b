-------------------------------- MODULE Pem ---------------------------------
(***************************************************************************)
(* What PEM text contains (RFC 7468 textual encoding, RFC 4648 base64,     *)
(* RFC 5915 private keys), on byte sequences.  Texts fall in three         *)
(* classes: clean ones (must load, with exactly these bytes), broken ones  *)
(* (a block that is not base64 or has no end: must be refused) and odd     *)
(* ones (wrong label at the end, white space inside, ...), about which     *)
(* only safety is claimed: nothing but what some block encodes comes out.  *)
(***************************************************************************)
EXTENDS Der

B64Chars == [i \in 0..63 |-> IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4 ELSE IF i = 62 THEN 43 ELSE 47]
B64Val == [c \in 0..255 |-> IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
                            ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 64]
EQ == 61
LF == 10
CR == 13
Blank == {9, 11, 12, 13, 32}

Enc64(b) ==
  LET n == Len(b)
      B(i) == IF i <= n THEN b[i] ELSE 0
      One(k) ==   \* the k-th character
        LET g == ((k - 1) \div 4) * 3
            j == (k - 1) % 4
        IN IF j >= 2 /\ g + j > n THEN EQ
           ELSE B64Chars[CASE j = 0 -> B(g + 1) \div 4
                           [] j = 1 -> ((B(g + 1) % 4) * 16) + (B(g + 2) \div 16)
                           [] j = 2 -> ((B(g + 2) % 16) * 4) + (B(g + 3) \div 64)
                           [] OTHER -> B(g + 3) % 64]
  IN [k \in 1..(((n + 2) \div 3) * 4) |-> One(k)]

\* [ok, exact, b]: exact is FALSE if unused bits are set
NoB64 == [ok |-> FALSE, exact |-> FALSE, b |-> <<>>]
Dec64(t) ==
  LET n == Len(t)
      pad == IF n > 0 /\ t[n] = EQ THEN (IF t[n - 1] = EQ THEN 2 ELSE 1) ELSE 0
  IN IF n % 4 # 0 THEN NoB64
     ELSE IF \E i \in 1..(n - pad) : B64Val[t[i]] = 64 THEN NoB64
     ELSE LET V(i) == IF i > n - pad THEN 0 ELSE B64Val[t[i]]
              One(k) == LET g == ((k - 1) \div 3) * 4
                            j == (k - 1) % 3
                        IN CASE j = 0 -> (V(g + 1) * 4) + (V(g + 2) \div 16)
                             [] j = 1 -> ((V(g + 2) % 16) * 16) + (V(g + 3) \div 4)
                             [] OTHER -> ((V(g + 3) % 4) * 64) + V(g + 4)
          IN [ok |-> TRUE, b |-> [k \in 1..(((n \div 4) * 3) - pad) |-> One(k)],
              exact |-> CASE pad = 2 -> V(n - 2) % 16 = 0 [] pad = 1 -> V(n - 1) % 4 = 0 [] OTHER -> TRUE]

(******************************* lines ************************************)
LinesOf(t) ==
  LET at == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = LF)
      n == Len(at)
      From(k) == IF k = 1 THEN 1 ELSE at[k - 1] + 1
      To(k) == LET e == IF k > n THEN Len(t) ELSE at[k] - 1
               IN IF e >= From(k) /\ t[e] = CR THEN e - 1 ELSE e      \* one carriage return belongs to the line end
  IN [k \in 1..(n + 1) |-> SubSeq(t, From(k), To(k))]

Dash5 == <<45, 45, 45, 45, 45>>
Begin == Dash5 \o <<66, 69, 71, 73, 78>>
End   == Dash5 \o <<69, 78, 68>>
Starts(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
Has(x, p) == \E i \in 1..(Len(x) - Len(p) + 1) : SubSeq(x, i, i + Len(p) - 1) = p
\* the label of a well-formed boundary line
LabelOf(x, p) == SubSeq(x, Len(p) + 2, Len(x) - 5)
Formed(x, p) == /\ Len(x) > Len(p) + 6 /\ Starts(x, p) /\ x[Len(p) + 1] = 32 /\ SubSeq(x, Len(x) - 4, Len(x)) = Dash5
                /\ \A i \in 1..Len(LabelOf(x, p)) : LabelOf(x, p)[i] \in 32..126 /\ LabelOf(x, p)[i] # 45
                /\ LabelOf(x, p)[1] # 32 /\ x[Len(x) - 5] # 32

\* one line of data: the characters that count, and how regular it is
DataLine(x) ==
  LET high == {i \in 1..Len(x) : x[i] > 127}
      blank == {i \in 1..Len(x) : x[i] \in Blank}
      bad == {i \in 1..Len(x) : x[i] < 128 /\ x[i] \notin Blank /\ x[i] # EQ /\ B64Val[x[i]] = 64}
      inner == \E i \in high : \E j \in (i + 1)..Len(x) : x[j] < 128 /\ x[j] \notin Blank
  IN [bad |-> bad # {} \/ inner, odd |-> high # {} \/ blank # {} \/ x = <<>>,
      c |-> IF high = {} /\ blank = {} THEN x ELSE SelectSeq(x, LAMBDA c : c < 128 /\ c \notin Blank)]

\* [free, bl: blocks]; st: "good" "bad" "open" "odd"
Close(label, c, bad, odd) ==
  LET d == Dec64(c)
  IN [label |-> label, b |-> d.b, st |-> IF bad \/ ~d.ok THEN "bad" ELSE IF odd \/ ~d.exact \/ c = <<>> THEN "odd" ELSE "good"]
RECURSIVE ScanR(_, _, _, _, _, _, _, _)
ScanR(ls, k, in, label, c, bad, odd, acc) ==
  IF k > Len(ls) THEN (IF in THEN [acc EXCEPT !.bl = Append(@, [label |-> label, b |-> <<>>, st |-> "open"])] ELSE acc)
  ELSE LET x == ls[k] IN
       IF ~in THEN
         IF Formed(x, Begin) THEN ScanR(ls, k + 1, TRUE, LabelOf(x, Begin), <<>>, FALSE, FALSE, acc)
         ELSE ScanR(ls, k + 1, FALSE, <<>>, <<>>, FALSE, FALSE,
                    [acc EXCEPT !.free = @ \/ Has(x, Begin), !.odd = @ \/ (\E i \in 1..Len(x) : x[i] > 127) \/ Has(x, Dash5)])
       ELSE IF Starts(x, End)
         THEN ScanR(ls, k + 1, FALSE, <<>>, <<>>, FALSE, FALSE,
                    [acc EXCEPT !.bl = Append(@, Close(label, c, bad, odd \/ ~Formed(x, End) \/ LabelOf(x, End) # label))])
       ELSE LET d == DataLine(x) IN ScanR(ls, k + 1, TRUE, label, c \o d.c, bad \/ d.bad, odd \/ d.odd, acc)
Scan(t) == ScanR(LinesOf(t), 1, FALSE, <<>>, <<>>, FALSE, FALSE, [free |-> FALSE, odd |-> FALSE, bl |-> <<>>])

CertLabel == <<67, 69, 82, 84, 73, 70, 73, 67, 65, 84, 69>>
KeyLabel  == <<69, 67, 32, 80, 82, 73, 86, 65, 84, 69, 32, 75, 69, 89>>
FirstOf(bl) == {<<bl[i].label, bl[i].b>> : i \in {i \in 1..Len(bl) : \A j \in 1..(i - 1) : bl[j].label # bl[i].label}}

(* ECPrivateKey: "must" be d, "none" (refused), "may" be d, or "free" *)
RECURSIVE LessB(_, _, _)
LessB(x, y, i) == IF i > Len(x) THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LessB(x, y, i + 1)
InRange(d) == Len(d) \in 1..32 /\ LessB(Pad32(d), Secp256n, 1)     \* d without leading zeros
KeyOf(b) ==
  LET c == Tlv(b, 1, Len(b))
      k == Kids(b, c)
      K(w, d) == [w |-> w, d |-> d]
  IN IF ~c.ok \/ c.next # Len(b) + 1 \/ c.tag # 48 THEN K("none", <<>>)
     ELSE IF Len(k.kids) < 2 \/ k.kids[1].tag # 2 \/ k.kids[2].tag # 4 THEN K("none", <<>>)
     ELSE LET d == StripZ(Body(b, k.kids[2]))
              ver == Body(b, k.kids[1]) = <<1>>
              n == Len(k.kids)
              par == n >= 3 /\ k.kids[3].tag = 160
              p256 == par /\ Body(b, k.kids[3]) = <<6, 8>> \o OidP256
              pub == n = 2 + (IF par THEN 2 ELSE 1) /\ k.kids[n].tag = 161
              shape == n = 2 \/ (par /\ n = 3) \/ pub
              regular == /\ k.ok /\ ver /\ shape /\ (par => p256) /\ k.kids[2].len = 32 /\ c.min /\ \A i \in 1..n : k.kids[i].min
          IN IF ~InRange(d) THEN K("none", <<>>)
             ELSE IF par /\ ~p256 THEN K("none", <<>>)
             ELSE K(IF regular THEN "must" ELSE "may", d)

(******************************* judge ************************************)
PairsOf(l) == {<<l[i].t, l[i].b>> : i \in 1..Len(l)}
KeyMay(g, b) == LET k == KeyOf(b) IN k.w = "free" \/ (k.w \in {"must", "may"} /\ g = k.d)
LoadOk(e) ==
  LET s == Scan(e.text)
      bl == s.bl
      broken == bl = <<>> \/ \E i \in 1..Len(bl) : bl[i].st \in {"bad", "open"}
      clean == ~broken /\ ~s.odd /\ \A i \in 1..Len(bl) : bl[i].st = "good"
      got == IF e.ok THEN PairsOf(e.blocks) ELSE {}
      first(l) == {x[2] : x \in {x \in FirstOf(bl) : x[1] = l}}
      any(l) == {bl[i].b : i \in {i \in 1..Len(bl) : bl[i].label = l}}
  IN CASE s.free -> TRUE
       [] ~s.free /\ broken -> ~e.ok /\ e.cert = <<>> /\ e.key = <<>>
       [] ~s.free /\ clean ->
            /\ e.ok /\ got = FirstOf(bl) /\ Cardinality(got) = Len(e.blocks)
            /\ {e.cert[i] : i \in 1..Len(e.cert)} = first(CertLabel)
            /\ IF first(KeyLabel) = {} THEN e.key = <<>>
               ELSE LET b == CHOOSE b \in first(KeyLabel) : TRUE
                        k == KeyOf(b)
                    IN CASE k.w = "must" -> e.key = <<k.d>>
                         [] k.w = "none" -> e.key = <<>>
                         [] OTHER -> e.key = <<>> \/ KeyMay(e.key[1], b)
       [] OTHER ->
            /\ \A g \in got : g[2] \in any(g[1])
            /\ \A i \in 1..Len(e.cert) : e.cert[i] \in any(CertLabel)
            /\ \A i \in 1..Len(e.key) : \E b \in any(KeyLabel) : KeyMay(e.key[i], b)

B64Ok(e) ==
  LET d == Dec64(e.text)
      loose == SelectSeq(e.text, LAMBDA c : c \notin Blank /\ c # LF)
  IN IF d.ok /\ d.exact THEN e.ok /\ e.b = d.b
     ELSE IF d.ok \/ loose # e.text THEN e.ok => Dec64(loose).ok /\ e.b = Dec64(loose).b
     ELSE ~e.ok

PemStep(f, e) ==
  LET good == CASE e.t = "load" -> LoadOk(e)
                [] e.t = "missing" -> e.none
                [] e.t = "b64" -> B64Ok(e)
                [] e.t = "enc" -> e.text = Enc64(e.b) /\ e.back
                [] OTHER -> FALSE
  IN IF good THEN {f} ELSE {}
=============================================================================
