------------------------------- MODULE PemGen -------------------------------
(***************************************************************************)
(* PEM texts: every layout, order, size, truncation and small change, and  *)
(* base64 texts.  The texts are built here, byte for byte.                 *)
(***************************************************************************)
EXTENDS Pem, Json, IOUtils
Profile == IOEnv.PROFILE
SIM     == IOEnv.SIM = "1"
QUICK   == IOEnv.TIER = "quick"
VARIABLES par, out
vars == <<par, out>>
Emit(st) == PrintT(<<"SCRIPT", ToJson([fam |-> "pem", steps |-> st])>>)
Flat(ss) == LET R[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE R[i - 1] \o ss[i] IN R[Len(ss)]
Load(t) == [op |-> "load", text |-> t]
B64(t)  == [op |-> "b64", text |-> t]
Enc(b)  == [op |-> "enc", b |-> b]
Rec(n, Op(_)) == [i \in 1..n |-> Op(i)]

\* bytes with some structure; kind 0: counting, 1: all ones, 2: zeros, 3: scattered
Data(n, kind) == [i \in 1..n |-> CASE kind = 0 -> (i * 7) % 256 [] kind = 1 -> 255 [] kind = 2 -> 0 [] OTHER -> (i * i * 31 + 5 * i) % 256]

Eols == << <<10>>, <<13, 10>>, <<32, 10>> >>
EcParams == <<69, 67, 32, 80, 65, 82, 65, 77, 69, 84, 69, 82, 83>>
Wrap(c, w, eol) == LET n == (Len(c) + w - 1) \div w
                   IN Flat([k \in 1..n |-> SubSeq(c, (k - 1) * w + 1, IF k * w < Len(c) THEN k * w ELSE Len(c)) \o eol])
Line(p, label, eol) == p \o <<32>> \o label \o Dash5 \o eol
Block(label, b, w, eol) == TLCEval(Line(Begin, label, eol) \o Wrap(TLCEval(Enc64(b)), w, eol) \o Line(End, label, eol))

(* private keys *)
D32(k) == CASE k = "one" -> [i \in 1..32 |-> IF i = 32 THEN 1 ELSE 0]
            [] k = "zero" -> [i \in 1..32 |-> 0]
            [] k = "n" -> Secp256n
            [] k = "n-1" -> [Secp256n EXCEPT ![32] = 80]
            [] k = "n+1" -> [Secp256n EXCEPT ![32] = 82]
            [] k = "max" -> [i \in 1..32 |-> 255]
            [] k = "lead" -> [i \in 1..32 |-> IF i < 4 THEN 0 ELSE i]
            [] k = "trail" -> [i \in 1..32 |-> IF i > 28 THEN 0 ELSE i]
            [] k = "high" -> [i \in 1..32 |-> IF i = 1 THEN 240 ELSE 17]
            [] OTHER -> [i \in 1..32 |-> (i * 5) % 251]
LenB(n) == IF n < 128 THEN <<n>> ELSE IF n < 256 THEN <<129, n>> ELSE <<130, n \div 256, n % 256>>
T(tag, b) == <<tag>> \o LenB(Len(b)) \o b
Par(k) == CASE k = "none" -> <<>>
            [] k = "p256" -> T(160, T(6, OidP256))
            [] k = "p384" -> T(160, T(6, <<43, 129, 4, 0, 34>>))
            [] k = "p257" -> T(160, T(6, <<42, 134, 72, 206, 61, 3, 1, 1>>))
            [] k = "empty" -> T(160, <<>>)
            [] OTHER -> T(4, <<1, 2>>)
Pub(k) == IF k THEN T(161, T(3, <<0, 4>> \o Data(64, 3))) ELSE <<>>
KeyDer(ver, d, par_, pub) == T(48, T(2, <<ver>>) \o T(4, d) \o Par(par_) \o Pub(pub))
Key0 == KeyDer(1, D32("std"), "p256", TRUE)
Key1 == KeyDer(1, D32("lead"), "p256", FALSE)
KeyFile(b) == Block(KeyLabel, b, 64, <<10>>)
Dlens == {0, 1, 2, 16, 30, 31, 33, 34, 40}

Pre == << <<>>, <<10>>, <<66, 97, 103, 10>>, <<83, 117, 98, 106, 101, 99, 116, 58, 32, 67, 78, 61, 120, 13, 10, 13, 10>>, <<195, 164, 10>>, <<45, 45, 45, 10>>, <<65, 65, 65, 65, 10>> >>
Post == << <<>>, <<10>>, <<13, 10, 10>>, <<101, 110, 100>>, <<65, 65, 65, 65, 10>>, <<45, 45, 45, 45>> >>

Labels == <<CertLabel, KeyLabel, EcParams>>
BlockNo(k, eol) == CASE k = 1 -> Block(CertLabel, Data(20, 3), 64, eol)
                     [] k = 2 -> Block(CertLabel, Data(50, 0), 64, eol)
                     [] k = 3 -> KeyFile(Key1)
                     [] k = 4 -> Block(EcParams, <<6, 8>> \o OidP256, 64, eol)
                     [] k = 5 -> KeyFile(KeyDer(1, D32("n"), "p256", FALSE))
                     [] OTHER -> KeyFile(KeyDer(1, D32("high"), "none", FALSE))
Orders == {<<a>> : a \in 1..6} \cup {<<a, b>> : a, b \in 1..6} \cup {<<a, b, c>> : a, b, c \in 1..4}

\* the file that is cut and changed: a certificate and a key
File(k) == CASE k = 1 -> Block(CertLabel, Data(20, 3), 16, <<10>>)
             [] k = 2 -> Block(CertLabel, Data(10, 0), 64, <<13, 10>>) \o Block(KeyLabel, Key1, 64, <<13, 10>>)
             [] OTHER -> Pre[3] \o Block(KeyLabel, Key0, 64, <<10>>) \o Post[4]
Del(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Ins(t, i, x) == SubSeq(t, 1, i - 1) \o x \o SubSeq(t, i, Len(t))
Changes(t, i) == <<Load(SubSeq(t, 1, i - 1)), Load(Del(t, i)), Load(SubSeq(t, i, Len(t)))>>
  \o [j \in 1..9 |-> Load([t EXCEPT ![i] = <<45, 61, 32, 10, 65, 0, 42, 95, 13>>[j]])]
  \o [j \in 1..6 |-> Load(Ins(t, i, <<<<10>>, <<61>>, <<32>>, <<195, 164>>, <<128>>, <<47>>>>[j]))]
Chunk == 12

\* whole lines removed, repeated, exchanged and inserted
Lines2 == << Line(Begin, CertLabel, <<10>>), Wrap(Enc64(Data(12, 3)), 64, <<10>>), Wrap(Enc64(Data(10, 0)), 64, <<10>>), Line(End, CertLabel, <<10>>),
             Line(Begin, KeyLabel, <<10>>), SubSeq(Enc64(Key1), 1, 64) \o <<10>>, SubSeq(Enc64(Key1), 65, Len(Enc64(Key1))) \o <<10>>, Line(End, KeyLabel, <<10>>) >>
Extra == << <<10>>, <<80, 114, 111, 99, 45, 84, 121, 112, 101, 58, 32, 52, 44, 69, 78, 67, 82, 89, 80, 84, 69, 68, 10>>, Line(Begin, CertLabel, <<10>>), Line(End, KeyLabel, <<10>>),
            Line(End, CertLabel, <<10>>), <<65, 65, 65, 65, 10>>, <<61, 61, 10>>, <<65, 10>>, Begin \o <<32>> \o CertLabel \o <<10>>, Dash5 \o <<10>>, <<9, 10>>, Line(Begin, EcParams, <<10>>), <<35, 10>> >>
LineScripts(i) ==
  <<Load(Flat(Del(Lines2, i))), Load(Flat(Ins(Lines2, i, <<Lines2[i]>>)))>>
  \o [j \in 1..8 |-> Load(Flat([Lines2 EXCEPT ![i] = Lines2[j], ![j] = Lines2[i]]))]
  \o [j \in 1..Len(Extra) |-> Load(Flat(Ins(Lines2, i, <<Extra[j]>>)))]
  \o [j \in 1..8 |-> Load(Flat(Del(Ins(Lines2, i, <<Lines2[j]>>), j)))]

(* base64 alone *)
RECURSIVE Strings(_, _)
Strings(A, n) == IF n = 0 THEN {<<>>} ELSE {<<a>> \o x : a \in A, x \in Strings(A, n - 1)}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Few == IF QUICK THEN {65, 47, 61} ELSE {65, 47, 61, 81}
CharBases == << Enc64(Data(6, 3)), Enc64(Data(5, 3)), Enc64(Data(4, 3)), Enc64(Data(1, 1)) >>
CharScript(c) == Flat([k \in 1..Len(CharBases) |->
  [i \in 1..Len(CharBases[k]) |-> B64([CharBases[k] EXCEPT ![i] = c])] \o [i \in 1..(Len(CharBases[k]) + 1) |-> B64(Ins(CharBases[k], i, <<c>>))]])
EncScript(n) == Flat([k \in 1..4 |-> <<Enc(Data(n, k - 1)), B64(Enc64(Data(n, k - 1)))>>])
  \o Flat([j \in 1..Len(Enc64(Data(n, 3))) |-> IF n <= 12 THEN <<B64(SubSeq(Enc64(Data(n, 3)), 1, j - 1)), B64(Del(Enc64(Data(n, 3)), j))>> ELSE <<>>])

LayoutScript(p) == LET b == Block(Labels[p[4]], Data(p[1], 3), p[2], Eols[p[3]]) IN
  (IF p[1] \in {1, 48} /\ p[2] \in {4, 64} THEN Flat([k \in 1..Len(Pre) |-> [j \in 1..Len(Post) |-> Load(Pre[k] \o b \o Post[j])]]) ELSE <<Load(b), Load(Pre[4] \o b \o Post[3])>>)
  \o <<Load(SubSeq(b, 1, Len(b) - Len(Eols[p[3]])))>>
Widths == {1, 2, 3, 4, 5, 7, 48, 60, 63, 64, 65, 72, 76, 77, 100, 1000}

KeyScript(b) == <<Load(KeyFile(b))>>
KeyEdits(b, lo) == Flat([j \in 1..10 |-> LET i == (lo * 10) + j IN IF i > Len(b) THEN <<>> ELSE <<Load(KeyFile(SubSeq(b, 1, i - 1))), Load(KeyFile([b EXCEPT ![i] = (@ + 1) % 256])), Load(KeyFile([b EXCEPT ![i] = (@ + 128) % 256]))>>])
KeyDers == {KeyDer(v, D32(k), p, q) : v \in {0, 1, 2}, k \in {"one", "zero", "n", "n-1", "n+1", "max", "lead", "trail", "high", "std"},
                                      p \in {"none", "p256", "p384", "p257", "empty", "junk"}, q \in {TRUE, FALSE}}
   \cup {KeyDer(1, Data(n, k), p, FALSE) : n \in Dlens, k \in 0..3, p \in {"none", "p256"}}
   \cup {KeyDer(1, [i \in 1..(n + 32) |-> IF i <= n THEN 0 ELSE i], p, FALSE) : n \in {1, 2, 5, 60}, p \in {"none", "p256"}}
   \cup {Key0 \o <<0>>, <<>>, <<48>>, <<48, 0>>, T(49, SubSeq(Key1, 3, Len(Key1))), T(48, T(2, <<1>>)), T(48, T(4, D32("std")) \o T(2, <<1>>)), T(48, T(2, <<0, 1>>) \o T(4, D32("std"))), T(48, T(2, <<>>) \o T(4, D32("std"))) }

RLen(x) == RandomElement({0, 1, 2, 3, 10, 16, 47, 48, 49, 95, 96, 97, 300})
RBlock(x) == Block(RandomElement({CertLabel, KeyLabel, EcParams}), RandomElement({Key0, Key1, Data(RLen(1), 0), Data(RLen(2), 3)}), RandomElement(Widths), RandomElement({<<10>>, <<13, 10>>}))
RText(x) == TLCEval(Flat([i \in 1..RandomElement(1..3) |-> Pre[RandomElement(1..7)] \o RBlock(i)]) \o Post[RandomElement(1..6)])
RChange(t) == LET i == TLCEval(RandomElement(1..Len(t)))
                  j == TLCEval(RandomElement(1..Len(t)))
                  w == TLCEval(RandomElement(1..6))
                  v == TLCEval(RandomElement({10, 13, 32, 45, 61, 65, 128, 0}))
  IN TLCEval(CASE w = 1 -> t
    [] w = 2 -> SubSeq(t, 1, i)
    [] w = 3 -> Del(t, i)
    [] w = 4 -> [t EXCEPT ![i] = v]
    [] w = 5 -> Ins(t, i, <<v>>)
    [] OTHER -> SubSeq(t, 1, i) \o SubSeq(t, j, Len(t)))
RndScript(x) == [i \in 1..20 |-> LET t == TLCEval(RText(i))
                                     u == TLCEval(RChange(t))
                                 IN Load(IF i % 2 = 0 THEN u ELSE RChange(u))]

Params ==
  CASE Profile = "ENC"    -> {<<n>> : n \in 0..(IF QUICK THEN 100 ELSE 400)}
    [] Profile = "STR"    -> {<<x>> : x \in UNION {Strings(Few, m) : m \in 0..4}}
    [] Profile = "CHAR"   -> {<<c>> : c \in 0..127}
    [] Profile = "LAYOUT" -> {<<n, w, e, l>> : n \in (IF QUICK THEN {1, 2, 3, 48, 49, 100} ELSE {1, 2, 3, 4, 5, 47, 48, 49, 95, 96, 97, 100, 192, 500}), w \in Widths, e \in 1..3, l \in {1, 3}}
    [] Profile = "ORDER"  -> {<<o, e>> : o \in Orders, e \in 1..2}
    [] Profile = "EDIT"   -> {<<f, c>> : f \in 1..3, c \in 0..40}
    [] Profile = "LINE"   -> {<<i>> : i \in 1..8}
    [] Profile = "KEY"    -> {<<b>> : b \in KeyDers}
    [] Profile = "KEYED"  -> {<<b, lo>> : b \in {Key0, Key1}, lo \in 0..12}
    [] Profile = "RND"    -> {<<1>>}
Script ==
  CASE Profile = "ENC"    -> EncScript(par[1])
    [] Profile = "STR"    -> LET s == SetSeq(Strings(Few, IF Len(par[1]) < 4 THEN 0 ELSE 4)) IN <<B64(par[1])>> \o [i \in 1..Len(s) |-> B64(par[1] \o s[i])]
    [] Profile = "CHAR"   -> CharScript(par[1])
    [] Profile = "LAYOUT" -> LayoutScript(par)
    [] Profile = "ORDER"  -> <<[op |-> "missing"], Load(Flat([i \in 1..Len(par[1]) |-> BlockNo(par[1][i], Eols[par[2]])]))>>
    [] Profile = "EDIT"   -> LET t == File(par[1]) IN
                             Flat([i \in 1..Chunk |-> IF par[2] * Chunk + i <= Len(t) THEN Changes(t, par[2] * Chunk + i) ELSE <<>>])
    [] Profile = "LINE"   -> LineScripts(par[1])
    [] Profile = "KEY"    -> KeyScript(par[1])
    [] Profile = "KEYED"  -> KeyEdits(par[1], par[2])
    [] Profile = "RND"    -> RndScript(1)
Init == out = FALSE /\ par \in Params
Next == /\ ~out /\ out' = TRUE /\ par' = par
        /\ (Script # <<>> => Emit(Script))
Spec == Init /\ [][Next]_vars
=============================================================================
