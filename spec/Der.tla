-------------------------------- MODULE Der ---------------------------------
(***************************************************************************)
(* What the bytes of a certificate mean (X.690 DER, RFC 5280), on byte     *)
(* sequences.  Three kinds of input are distinguished: well-formed ones    *)
(* (must be accepted with exactly these values), torn ones (an element     *)
(* reaches over the end of its container or bytes are left over: must be   *)
(* refused) and others, about which only safety is claimed.                *)
(***************************************************************************)
EXTENDS Prim, Calendar

\* [ok, tag, h (start), from, len, next, min]
NoTlv == [ok |-> FALSE, tag |-> 0, h |-> 0, from |-> 0, len |-> 0, next |-> 0, min |-> FALSE]
Tlv(b, i, end) ==
  IF i > end THEN NoTlv
  ELSE LET l == LenAt(b, i + 1)
           from == i + 1 + l[2]
       IN IF l[2] = 0 \/ from - 1 > end \/ from + l[1] - 1 > end THEN NoTlv
          ELSE [ok |-> TRUE, tag |-> b[i], h |-> i, from |-> from, len |-> l[1], next |-> from + l[1], min |-> l[3]]

\* the elements in b[from..end]: [ok, kids]
RECURSIVE KidsR(_, _, _, _)
KidsR(b, i, end, acc) ==
  IF i = end + 1 THEN [ok |-> TRUE, kids |-> acc]
  ELSE LET t == Tlv(b, i, end) IN
       IF ~t.ok THEN [ok |-> FALSE, kids |-> acc] ELSE KidsR(b, t.next, end, Append(acc, t))
Kids(b, t) == KidsR(b, t.from, t.from + t.len - 1, <<>>)
Body(b, t) == SubSeq(b, t.from, t.from + t.len - 1)
Whole(b, t) == SubSeq(b, t.h, t.next - 1)

OidEc     == <<42, 134, 72, 206, 61, 2, 1>>
OidP256   == <<42, 134, 72, 206, 61, 3, 1, 7>>
OidEcdsa  == <<42, 134, 72, 206, 61, 4, 3, 2>>
Attr(o) == CASE o = <<85, 4, 6>>  -> "countryName"
             [] o = <<85, 4, 8>>  -> "stateOrProvinceName"
             [] o = <<85, 4, 7>>  -> "localityName"
             [] o = <<85, 4, 10>> -> "organizationName"
             [] o = <<85, 4, 11>> -> "organizationalUnitName"
             [] o = <<85, 4, 3>>  -> "commonName"
             [] o = <<42, 134, 72, 134, 247, 13, 1, 9, 1>> -> "emailAddress"
             [] OTHER -> "?"
PrintableChars == (48..57) \cup (65..90) \cup (97..122) \cup {32, 39, 40, 41, 43, 44, 45, 46, 47, 58, 61, 63}

(* Names: SEQUENCE OF SET OF SEQUENCE {OID, string}.  [ok, strict, attrs] *)
NameOf(b, t) ==
  LET sets == Kids(b, t)
      One1(s) ==  \* one SET
        LET k == Kids(b, s) IN
        IF s.tag # 49 \/ ~k.ok \/ Len(k.kids) # 1 \/ k.kids[1].tag # 48 THEN [ok |-> FALSE, strict |-> FALSE, a |-> "?", v |-> <<>>]
        ELSE LET p == Kids(b, k.kids[1]) IN
             IF ~p.ok \/ Len(p.kids) # 2 \/ p.kids[1].tag # 6 \/ p.kids[2].tag \notin {12, 19, 22}
             THEN [ok |-> FALSE, strict |-> FALSE, a |-> "?", v |-> <<>>]
             ELSE LET a == Attr(Body(b, p.kids[1]))
                      v == Body(b, p.kids[2])
                      ascii == \A i \in 1..Len(v) : v[i] < 128
                  IN [ok |-> a # "?" /\ ascii,
                      strict |-> /\ s.min /\ k.kids[1].min /\ p.kids[1].min /\ p.kids[2].min /\ v # <<>>
                                 /\ p.kids[2].tag = 19 => \A i \in 1..Len(v) : v[i] \in PrintableChars
                                 /\ p.kids[2].tag \in (CASE a = "countryName" -> {19} [] a = "emailAddress" -> {22} [] OTHER -> {12, 19}),
                      a |-> a, v |-> v]
      m == [i \in 1..Len(sets.kids) |-> One1(sets.kids[i])]
  IN IF t.tag # 48 \/ ~sets.ok THEN [ok |-> FALSE, strict |-> FALSE, attrs |-> {}]
     ELSE [ok |-> \A i \in 1..Len(m) : m[i].ok, strict |-> t.min /\ m # <<>> /\ \A i \in 1..Len(m) : m[i].strict,
           attrs |-> {[a |-> m[i].a, v |-> m[i].v] : i \in 1..Len(m)}]

AlgOk(b, t) == LET k == Kids(b, t) IN t.tag = 48 /\ k.ok /\ Len(k.kids) = 1 /\ k.kids[1].tag = 6 /\ Body(b, k.kids[1]) = OidEcdsa
AlgStrict(b, t) == t.min /\ Kids(b, t).kids[1].min

ExtOk(b, t) ==   \* [3] { SEQUENCE OF SEQUENCE {OID, BOOLEAN?, OCTET STRING} }
  LET k == Kids(b, t) IN
  /\ t.tag = 163 /\ k.ok /\ Len(k.kids) = 1 /\ k.kids[1].tag = 48
  /\ LET e == Kids(b, k.kids[1]) IN
       /\ e.ok /\ e.kids # <<>>
       /\ \A i \in 1..Len(e.kids) :
            LET x == Kids(b, e.kids[i]) IN
            /\ e.kids[i].tag = 48 /\ x.ok /\ Len(x.kids) \in {2, 3} /\ x.kids[1].tag = 6 /\ x.kids[1].len > 0
            /\ x.kids[Len(x.kids)].tag = 4 /\ (Len(x.kids) = 3 => x.kids[2].tag = 1 /\ x.kids[2].len = 1)
            /\ \A j \in 1..Len(x.kids) : x.kids[j].min

NoTbs == [ok |-> FALSE, strict |-> FALSE]
TbsOf(b, t) ==
  LET k == Kids(b, t)
      ks == k.kids
      v == IF ks # <<>> /\ ks[1].tag = 160 THEN 1 ELSE 0
      n == Len(ks) - v
  IN IF t.tag # 48 \/ ~k.ok \/ n < 6 \/ n > 7 THEN NoTbs
     ELSE
     LET ser == ks[v + 1]
         alg == ks[v + 2]
         iss == NameOf(b, ks[v + 3])
         per == ks[v + 4]
         sub == NameOf(b, ks[v + 5])
         spk == ks[v + 6]
         vk == Kids(b, ks[1])
         verOk == v = 0 \/ (vk.ok /\ Len(vk.kids) = 1 /\ vk.kids[1].tag = 2 /\ vk.kids[1].len = 1 /\ b[vk.kids[1].from] \in 0..2)
         pk == Kids(b, per)
         perOk == per.tag = 48 /\ pk.ok /\ Len(pk.kids) = 2 /\ pk.kids[1].tag = 23 /\ pk.kids[2].tag = 23
         sk == Kids(b, spk)
         spkOk == /\ spk.tag = 48 /\ sk.ok /\ Len(sk.kids) = 2 /\ sk.kids[1].tag = 48 /\ sk.kids[2].tag = 3
                  /\ sk.kids[2].len > 0 /\ b[sk.kids[2].from] = 0
         ak == Kids(b, sk.kids[1])
         akOk == /\ ak.ok /\ Len(ak.kids) = 2 /\ ak.kids[1].tag = 6 /\ ak.kids[2].tag = 6
                 /\ Body(b, ak.kids[1]) = OidEc /\ Body(b, ak.kids[2]) = OidP256
         ext == n = 6 \/ ExtOk(b, ks[v + 7])
         ok == verOk /\ ser.tag = 2 /\ ser.len > 0 /\ alg.len > 0 /\ AlgOk(b, alg) /\ iss.ok /\ perOk /\ sub.ok /\ spkOk
     IN IF ~ok THEN NoTbs
        ELSE IF ~akOk \/ ~ext THEN NoTbs
        ELSE LET nb == Moment(Body(b, pk.kids[1]))
                 na == Moment(Body(b, pk.kids[2]))
                 sb == Body(b, ser)
                 key == SubSeq(Body(b, sk.kids[2]), 2, sk.kids[2].len)
             IN [ok |-> nb.ok /\ na.ok,
                 strict |-> /\ t.min /\ \A i \in 1..Len(ks) : ks[i].min
                            /\ (v = 1 => vk.kids[1].min)
                            /\ sb[1] < 128 /\ ~(Len(sb) > 1 /\ sb[1] = 0 /\ sb[2] < 128)
                            /\ AlgStrict(b, alg) /\ iss.strict /\ sub.strict
                            /\ \A i \in 1..2 : pk.kids[i].min /\ sk.kids[i].min /\ ak.kids[i].min
                            \* a key of another shape is not one of this curve
                            /\ Len(key) = 65 /\ key[1] = 4
                            /\ (n = 7 => v = 1 /\ b[vk.kids[1].from] = 2),
                 serial |-> StripZ(sb), pos |-> sb[1] < 128, issuer |-> iss.attrs, subject |-> sub.attrs,
                 nb |-> nb, na |-> na, key |-> key]

\* the frame: Certificate ::= SEQUENCE {tbs, algorithm, signature}
Frame(b) ==
  LET c == Tlv(b, 1, Len(b))
      k == Kids(b, c)
  IN IF ~c.ok \/ c.next # Len(b) + 1 \/ ~k.ok THEN [torn |-> TRUE, ok |-> FALSE, strict |-> FALSE]
     ELSE IF c.tag # 48 \/ Len(k.kids) # 3 \/ k.kids[1].tag # 48
     THEN [torn |-> FALSE, ok |-> FALSE, strict |-> FALSE]
     ELSE LET sg == k.kids[3]
              d == DecSig(SubSeq(Body(b, sg), 2, sg.len))
              sok == sg.tag = 3 /\ sg.len > 0 /\ b[sg.from] = 0
              aok == AlgOk(b, k.kids[2])
          IN [torn |-> FALSE, ok |-> TRUE, tbs |-> k.kids[1], whole |-> Whole(b, k.kids[1]),
              sig |-> IF sok THEN d ELSE NoSig,
              strict |-> c.min /\ (\A i \in 1..3 : k.kids[i].min) /\ sok /\ d.strict /\ aok /\ (aok => AlgStrict(b, k.kids[2]))]

Secp256n == <<255, 255, 255, 255, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255,
              188, 230, 250, 173, 167, 23, 158, 132, 243, 185, 202, 194, 252, 99, 37, 81>>
Pad32(x) == [i \in 1..32 |-> IF i <= 32 - Len(x) THEN 0 ELSE x[i - (32 - Len(x))]]
\* n - s, on byte sequences
NegMod(s) == LET p == Pad32(s)
                 B[i \in 0..32] == IF i = 0 THEN 0 ELSE IF Secp256n[33 - i] - p[33 - i] - B[i - 1] < 0 THEN 1 ELSE 0
             IN StripZ([j \in 1..32 |-> (Secp256n[j] - p[j] - B[32 - j] + 512) % 256])

(***************************************************************************)
(* The judge: f.tab holds what the CAs signed: <<ca, tbs, r, s>>           *)
(***************************************************************************)
Attrs(l) == {[a |-> l[i].a, v |-> l[i].v] : i \in 1..Len(l)}
\* one reported value for every type of attribute, and no others
NameIs(got, want) == /\ Attrs(got) \subseteq want
                     /\ {x.a : x \in want} = {got[i].a : i \in 1..Len(got)}
                     /\ \A i, j \in 1..Len(got) : i # j => got[i].a # got[j].a

DerStep(f, e) ==
  CASE e.t = "make" ->
         LET r == Frame(e.b)
         IN IF r.ok /\ r.sig.ok THEN {[f EXCEPT !.tab = @ \cup {<<e.ca + 1, r.whole, r.sig.r, r.sig.s>>}]} ELSE {}
    [] e.t = "parse" ->
         LET r == Frame(e.b)
             t == IF r.ok THEN TbsOf(e.b, r.tbs) ELSE NoTbs
             good == r.ok /\ r.strict /\ t.ok /\ t.strict
             signed(i) == /\ r.ok /\ r.sig.ok /\ Len(r.sig.s) <= 32 /\ Len(r.sig.s) > 0
                          /\ \/ <<i, r.whole, r.sig.r, r.sig.s>> \in f.tab
                             \/ <<i, r.whole, r.sig.r, NegMod(r.sig.s)>> \in f.tab
             values ==
                /\ NameIs(e.issuer, t.issuer) /\ NameIs(e.subject, t.subject)
                /\ t.pos => e.serial = t.serial
                /\ e.spki = t.key
                /\ e.point = IF Len(t.key) = 65 /\ t.key[1] = 4 THEN SubSeq(t.key, 2, 65) ELSE <<>>
                /\ \A i \in 1..Len(e.nows) : e.valid[i] = Inside(t.nb, t.na, e.nows[i])
         IN IF /\ r.torn => ~e.ok
               /\ good => e.ok
               /\ e.ok =>
                    /\ t.ok => values
                    /\ r.ok /\ r.sig.ok /\ r.sig.strict => e.sig = <<r.sig.r, r.sig.s>>
                    /\ \A i \in 1..Len(e.by) : (e.by[i] => signed(i)) /\ (good /\ signed(i) => e.by[i])
            THEN {f} ELSE {}
    [] OTHER -> {}
=============================================================================
