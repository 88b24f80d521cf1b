-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* Ideal functionalities of the primitives: what every participant (the    *)
(* library, the reference, a remote peer) may rely on.                     *)
(*                                                                         *)
(*  - hash, HMAC, HKDF: functions of the contents fed in, whatever the     *)
(*    pieces (objects with a history of updates, clones and reads),        *)
(*  - AEAD: a ledger; opening returns exactly what was sealed,             *)
(*  - signatures: a registry; a signature verifies iff it was made,        *)
(*  - Diffie-Hellman: a commutative table with degenerate inputs,          *)
(*  - random generators: sizes, ranges, determinism, no repetition.        *)
(*                                                                         *)
(* Contents are symbolic: sequences of segments <<pattern, from, length>>. *)
(* Values (digests, tags, ...) are opaque tokens.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Norm(_)
Norm(c) ==
  IF c = <<>> THEN <<>>
  ELSE LET h == Head(c)
           t == Norm(SubSeq(c, 2, Len(c)))
       IN IF h[3] = 0 THEN t
          ELSE IF t # <<>> /\ t[1][1] = h[1] /\ t[1][2] = h[2] + h[3]
               THEN << <<h[1], h[2], h[3] + t[1][3]>> >> \o SubSeq(t, 2, Len(t))
               ELSE <<h>> \o t

RECURSIVE CLen(_)
CLen(c) == IF c = <<>> THEN 0 ELSE Head(c)[3] + CLen(SubSeq(c, 2, Len(c)))

HashLen(h) == IF h = "sha384" THEN 48 ELSE 32

\* a table is a set of <<input, value>>: functional means one value per input
Fits(tab, in, v) == \A x \in tab : x[1] = in => x[2] = v
Put(tab, in, v)  == tab \cup {<<in, v>>}

F0 == [objs |-> <<>>, tab |-> {}, win |-> {}]

(***************************** hash objects *******************************)
HNew(f, h, k)   == [f EXCEPT !.objs = Append(@, [h |-> h, k |-> k, c |-> <<>>])]
HUpd(f, o, c)   == [f EXCEPT !.objs[o].c = Norm(@ \o c)]
HClone(f, o)    == [f EXCEPT !.objs = Append(@, f.objs[o])]
HContent(f, o)  == f.objs[o].c

HashStep(f, e) ==
  CASE e.t = "new"   -> IF e.o = Len(f.objs) + 1 THEN {HNew(f, e.h, <<>>)} ELSE {}
    [] e.t = "upd"   -> {HUpd(f, e.o, e.c)}
    [] e.t = "clone" -> {HClone(f, e.o)}
    [] e.t = "read"  ->
         LET o == f.objs[e.o]
             in == <<o.h, o.c>>
         IN IF /\ e.c = o.c          \* the reference was given what the specification says
               /\ e.typ = o.h
               /\ e.v = e.ref /\ Fits(f.tab, in, e.v)
            THEN {[f EXCEPT !.tab = Put(@, in, e.v)]} ELSE {}
    [] e.t = "one"   ->
         LET in == <<e.h, Norm(e.c)>>
         IN IF e.v = e.ref /\ Fits(f.tab, in, e.v) THEN {[f EXCEPT !.tab = Put(@, in, e.v)]} ELSE {}
    [] OTHER -> {}

(***************************** HMAC and HKDF ******************************)
HmacStep(f, e) ==
  CASE e.t = "hnew"  -> {HNew(f, e.h, Norm(e.k))}
    [] e.t = "hupd"  -> {HUpd(f, e.o, e.c)}
    [] e.t = "hread" ->
         LET o == f.objs[e.o]
             in == <<"hmac", o.h, o.k, o.c>>
         IN IF e.c = o.c /\ e.v = e.ref /\ Fits(f.tab, in, e.v)
            THEN {[f EXCEPT !.tab = Put(@, in, e.v)]} ELSE {}
    [] e.t = "extract" ->   \* extraction is HMAC keyed with the salt
         LET in == <<"hmac", e.h, Norm(e.k), Norm(e.c)>>
         IN IF e.v = e.ref /\ Fits(f.tab, in, e.v) THEN {[f EXCEPT !.tab = Put(@, in, e.v)]} ELSE {}
    [] e.t = "expand" ->
         LET in == <<"hkdf", e.h, Norm(e.k), Norm(e.c)>>
             agrees == \A x \in f.tab : x[1] = in =>
                         LET m == IF Len(x[2]) < Len(e.blocks) THEN Len(x[2]) ELSE Len(e.blocks)
                         IN SubSeq(x[2], 1, m) = SubSeq(e.blocks, 1, m)
         IN IF /\ e.some = (e.n <= 255 * HashLen(e.h))
               /\ e.some => e.len = e.n /\ e.v = e.ref /\ agrees
            THEN {[f EXCEPT !.tab = IF e.some THEN Put(@, in, e.blocks) ELSE @]} ELSE {}
    [] e.t = "label" -> IF e.v = e.ref THEN {f} ELSE {}
    [] OTHER -> {}

(********************************* AEAD ***********************************)
\* ledger entries <<suite, key, nonce, aad, ciphertext, tag, plaintext>>
AeadStep(f, e) ==
  CASE e.t = "seal" ->
         LET in == <<e.s, e.k, e.n, e.a, e.p>>
             v  == <<e.ct, e.tag>>
         IN IF e.cl = e.pl /\ \A x \in f.tab : (x[1] = in => x[2] = v)
            THEN {[f EXCEPT !.tab = Put(@, in, v),
                            !.objs = Append(@, [p |-> e.p])]} ELSE {}
    [] e.t = "open" ->
         LET hit == {x \in f.tab : /\ x[1][1] = e.s /\ x[1][2] = e.k /\ x[1][3] = e.n /\ x[1][4] = e.a
                                   /\ x[2] = <<e.ct, e.tag>>}
         IN IF /\ IF hit = {} THEN e.res = "err" ELSE \E x \in hit : e.res = x[1][5]
               /\ e.mut = "none" => e.res = f.objs[e.o].p
            THEN {f} ELSE {}
    [] OTHER -> {}

(***************************** Diffie-Hellman *****************************)
DhStep(f, e) ==
  CASE e.t = "key" -> IF e.v = e.ref THEN {[f EXCEPT !.objs = Append(@, e.ref)]} ELSE {}
    [] e.t = "dh" ->
         LET bad == e.low \/ e.u = "none"       \* low order point or not 32 bytes
             in  == {e.own, e.u}                \* the same secret for both sides
         IN IF bad
            THEN IF /\ e.via = "hs"  => e.v = "err"
                    /\ e.via = "raw" => e.v = e.ref
                 THEN {f} ELSE {}
            ELSE IF e.v = e.ref /\ Fits(f.tab, in, e.s)
                 THEN {[f EXCEPT !.tab = Put(@, in, e.s)]} ELSE {}
    [] OTHER -> {}

(******************************* signatures *******************************)
StripZ(b) == LET S[i \in 1..(Len(b) + 1)] == IF i <= Len(b) /\ b[i] = 0 THEN S[i + 1] ELSE i
             IN SubSeq(b, S[1], Len(b))
\* DER INTEGER: minimal, non-negative
EncInt(b) ==
  LET s == StripZ(b)
      v == IF s = <<>> THEN <<0>> ELSE IF s[1] >= 128 THEN <<0>> \o s ELSE s
  IN <<2, Len(v)>> \o v
EncSig(r, s) == LET b == EncInt(r) \o EncInt(s) IN <<48, Len(b)>> \o b

\* [ok, strict, r, s, n]: ok: well-formed (two integers fill the sequence)
NoSig == [ok |-> FALSE, strict |-> FALSE, r |-> <<>>, s |-> <<>>, n |-> 0]
\* a length: <<value, size of the field, minimal>>, size 0 if malformed
LenAt(b, i) ==
  IF i > Len(b) THEN <<0, 0, FALSE>>
  ELSE IF b[i] < 128 THEN <<b[i], 1, TRUE>>
  ELSE LET k == b[i] - 128
       IN IF k = 0 \/ k > 4 \/ i + k > Len(b) THEN <<0, 0, FALSE>>
          ELSE LET V[j \in 0..k] == IF j = 0 THEN 0 ELSE IF V[j - 1] > 1000000 THEN 8000000 ELSE V[j - 1] * 256 + b[i + j]
               IN <<V[k], k + 1, b[i + 1] # 0 /\ V[k] >= 128>>
DecInt(b, i, end) ==   \* <<ok, strict, value, next>>
  LET l == LenAt(b, i + 1)
      from == i + 1 + l[2]
      v == SubSeq(b, from, from + l[1] - 1)
  IN IF i > end \/ b[i] # 2 \/ l[2] = 0 \/ from + l[1] - 1 > end THEN <<FALSE, FALSE, <<>>, 0>>
     ELSE <<TRUE, l[3] /\ v # <<>> /\ v[1] < 128 /\ ~(Len(v) > 1 /\ v[1] = 0 /\ v[2] < 128), StripZ(v), from + l[1]>>
DecSig(b) ==
  LET l == LenAt(b, 2)
      from == 2 + l[2]
      end == from + l[1] - 1
  IN IF Len(b) < 2 \/ b[1] # 48 \/ l[2] = 0 \/ end > Len(b) THEN NoSig
     ELSE LET r == DecInt(b, from, end) IN
          IF ~r[1] THEN NoSig
          ELSE LET s == DecInt(b, r[4], end) IN
               IF ~s[1] \/ s[4] # end + 1 THEN NoSig
               ELSE [ok |-> TRUE, strict |-> l[3] /\ r[2] /\ s[2], r |-> r[3], s |-> s[3], n |-> end]

SigStep(f, e) ==
  CASE e.t = "key"  -> IF e.v = e.ref THEN {f} ELSE {}
    [] e.t = "sign" ->
         IF e.by = "inf" THEN IF e.ref THEN {} ELSE {f}
         ELSE IF e.ref THEN {[f EXCEPT !.tab = Put(@, <<e.q, e.z, e.r, e.s>>, TRUE)]} ELSE {}
    [] e.t = "verify" ->
         LET known == <<<<e.q, e.z, e.r, e.s>>, TRUE>> \in f.tab
         IN IF e.res = known /\ e.ref = known /\ e.der \in {"no", "same"} THEN {f} ELSE {}
    [] e.t = "enc" ->
         IF e.der = EncSig(e.r, e.s) /\ e.back.ok /\ e.back.n = Len(e.der) THEN {f} ELSE {}
    [] e.t = "dec" ->
         LET d == DecSig(e.b)
         IN IF /\ d.ok /\ d.strict => e.ok
               /\ ~d.ok => ~e.ok
               /\ e.ok => e.r = d.r /\ e.s = d.s /\ e.n = d.n
            THEN {f} ELSE {}
    [] OTHER -> {}

(**************************** random generators ***************************)
\* objs: [kind, seed, hist]: what was asked so far
RngStep(f, e) ==
  LET ask(o, q, v, wins) ==
        LET g == f.objs[o]
            in == <<g.seed, g.hist, q>>
            det == g.kind # "urandom"
            fresh == \A i \in 1..Len(wins) : /\ wins[i] \notin f.win
                                             /\ \A j \in 1..(i - 1) : wins[j] # wins[i]
        IN IF (IF det THEN Fits(f.tab, <<g.kind, in>>, v) ELSE fresh)
           THEN {[f EXCEPT !.objs[o].hist = Append(@, q),
                           !.tab = IF det THEN Put(@, <<g.kind, in>>, v) ELSE @,
                           !.win = IF det THEN @ ELSE @ \cup {wins[i] : i \in 1..Len(wins)}]}
           ELSE {}
  IN
  CASE e.t = "new"   -> {[f EXCEPT !.objs = Append(@, [kind |-> e.kind, seed |-> e.seed, hist |-> <<>>])]}
    [] e.t = "bytes" -> IF e.len = e.n THEN ask(e.o, <<"bytes", e.n>>, e.v, e.win) ELSE {}
    [] e.t = "between" ->
         IF (IF f.objs[e.o].kind = "u32" THEN e.num >= e.a /\ e.num < e.b
             ELSE e.sig > e.a /\ e.sig <= e.b)
         THEN ask(e.o, <<"between", e.a, e.b>>, e.v, e.win) ELSE {}
    [] e.t = "many" ->
         IF /\ e.lens
            /\ f.objs[e.o].kind = "urandom" =>
                 /\ (e.n >= 8 => e.distinct = e.cnt)
                 /\ \A i \in 1..Len(e.pos) : e.pos[i] * 8 >= (IF e.cnt > 256 THEN 256 ELSE e.cnt)
         THEN {f} ELSE {}
    [] OTHER -> {}
=============================================================================
