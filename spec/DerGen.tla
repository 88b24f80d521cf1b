------------------------------- MODULE DerGen -------------------------------
(***************************************************************************)
(* Certificates of many shapes, and changed certificates.  Shapes are      *)
(* described by parameters; the bytes are built by the reference.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Profile == IOEnv.PROFILE
SIM     == IOEnv.SIM = "1"
QUICK   == IOEnv.TIER = "quick"
VARIABLES par, out
vars == <<par, out>>
Emit(st) == PrintT(<<"SCRIPT", ToJson([fam |-> "cert", steps |-> st])>>)
Flat(ss) == LET R[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE R[i - 1] \o ss[i] IN R[Len(ss)]

AttrNames == <<"countryName", "stateOrProvinceName", "localityName", "organizationName", "organizationalUnitName", "commonName", "emailAddress">>
A(a, k) == [a |-> a, n |-> k]
Std(k) == <<A("countryName", 2), A("organizationName", 5), A("commonName", k)>>
Base == [op |-> "make", issuer |-> Std(9), subject |-> Std(14), version |-> 2, serial |-> 3, high |-> FALSE, ext |-> 20,
         tag |-> 12, klen |-> 0, pub |-> "", ca |-> 0, sig |-> 0, nb |-> "200101000000Z", na |-> "400101000000Z"]
Nows == << [d |-> 18261, s |-> 86399], [d |-> 18262, s |-> 0], [d |-> 20000, s |-> 5], [d |-> 25567, s |-> 0], [d |-> 25567, s |-> 1] >>
NoMut == [op |-> "none"]
P(o, m) == [op |-> "parse", o |-> o, mut |-> m, nows |-> <<>>]
P0(o) == [op |-> "parse", o |-> o, mut |-> NoMut, nows |-> Nows]
Edit(o, v, w) == [op |-> o, pos |-> v, val |-> w, n |-> 0]
\* a shape, plain and with a few changes
ShapeScript(m) == << m, P0(1), P(1, Edit("trunc", -1, 0)), P(1, Edit("add", 0, 0)), P(1, Edit("xor", 40, 1)), P(1, Edit("xor", -1, 1)), P(1, Edit("xor", -40, 128)) >>

One(S) == IF SIM THEN {RandomElement(S)} ELSE S
Lens == {0, 1, 2, 3, 10, 30, 60, 64, 99, 100, 110, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 200, 240, 250, 251, 252, 253, 254, 255, 256, 257, 300, 600}
RName(x) == [i \in 1..RandomElement(1..8) |-> A(AttrNames[RandomElement(1..7)], RandomElement(Lens))]
RShape(x) == [op |-> "make", issuer |-> RName(1), subject |-> RName(2), version |-> RandomElement({-1, 0, 1, 2, 2, 2}), serial |-> RandomElement({1, 2, 8, 16, 19, 20, 21, 60, 126, 127, 128, 129, 255, 256}),
              high |-> RandomElement({TRUE, FALSE}), ext |-> RandomElement({0, 1, 20, 100, 110, 120, 128, 200, 230, 240, 250, 256, 300, 1000}),
              tag |-> RandomElement({12, 12, 19, 19, 22}), klen |-> RandomElement({0, 0, 0, 0, 2, 3, 4}), pub |-> RandomElement({"", "", "", "", "short", "compressed"}),
              ca |-> RandomElement({0, 1}), sig |-> RandomElement({0, 0, 0, 0, 0, 1, 2}),
              nb |-> RandomElement({"200101000000Z", "500101000000Z", "491231235959Z", "240229120000Z"}), na |-> RandomElement({"400101000000Z", "491231235959Z", "240301000000Z", "691231235959Z"})]

Sizes ==
       {[Base EXCEPT !.ext = k] : k \in 0..300}
  \cup {[Base EXCEPT !.ext = k, !.version = 2] : k \in (IF QUICK THEN {64000, 65000, 65100, 65200, 65300} ELSE {30000, 64000} \cup (65000..65300))}
  \cup {[Base EXCEPT !.issuer = Std(k)] : k \in 0..140}
  \cup {[Base EXCEPT !.subject = Std(k)] : k \in (0..140) \cup (200..270)}
  \cup {[Base EXCEPT !.serial = k, !.high = h] : k \in (1..40) \cup (120..132) \cup {255, 256}, h \in {TRUE, FALSE}}
  \cup {[Base EXCEPT !.ext = 0, !.version = v, !.issuer = <<A("commonName", k)>>, !.subject = <<A("commonName", j)>>] : v \in {-1, 0, 1, 2}, k \in {1, 2, 5}, j \in {1, 2, 3, 4}}
  \cup {[Base EXCEPT !.sig = g, !.ca = c] : g \in {0, 1, 2}, c \in {0, 1}}
  \cup {[Base EXCEPT !.klen = k] : k \in 2..4}
  \cup {[Base EXCEPT !.pub = p, !.tag = t] : p \in {"", "short", "compressed"}, t \in {12, 19, 22}}
  \cup {[Base EXCEPT !.issuer = [i \in 1..k |-> A(AttrNames[1 + ((i * 3) % 7)], 4 + i)], !.subject = [i \in 1..k |-> A(AttrNames[1 + ((i * 5) % 7)], 3 + i)]] : k \in 1..12}
  \cup {[Base EXCEPT !.nb = a, !.na = b] : a \in {"200101000000Z", "190229000000Z", "500101000000Z", "200101000000", "2001010000Z", "20200101000000Z", ""}, b \in {"400101000000Z", "400230000000Z", "410101006000Z", ""}}

\* bases for the byte-level changes: with and without extension, long and short lengths
Bases == << [Base EXCEPT !.ext = 0, !.version = -1, !.issuer = <<A("commonName", 2)>>, !.subject = <<A("commonName", 3)>>], Base,
            [Base EXCEPT !.issuer = Std(120), !.ca = 1, !.high = TRUE],
            [Base EXCEPT !.sig = 1, !.ext = 200] >>
Chunk == 40
Ops == << <<"xor", 1>>, <<"xor", 128>>, <<"xor", 32>>, <<"xor", 255>>, <<"set", 0>>, <<"set", 48>>, <<"set", 130>>, <<"del", 0>>, <<"ins", 0>>, <<"ins", 129>>, <<"trunc", 0>> >>
MoreOps == Ops \o << <<"xor", 2>>, <<"xor", 4>>, <<"xor", 8>>, <<"xor", 16>>, <<"xor", 64>>, <<"set", 255>>, <<"set", 2>>, <<"set", 128>>, <<"set", 132>>, <<"ins", 48>>, <<"ins", 5>> >>
UseOps == IF QUICK THEN Ops ELSE MoreOps
ByteScript(b, lo) == << Bases[b], P0(1) >> \o
  Flat([i \in 1..Chunk |-> [j \in 1..Len(UseOps) |-> P(1, Edit(UseOps[j][1], lo * Chunk + i - 1, UseOps[j][2]))]])
\* random positions, two certificates of two CAs
RMut(x) == LET o == RandomElement({"xor", "set", "trunc", "ins", "del", "add"}) IN [op |-> o, pos |-> RandomElement(0..1200), val |-> RandomElement(0..255), n |-> RandomElement(0..4)]
RndScript(x) == << RShape(1), RShape(2), P0(1), P0(2) >> \o [i \in 1..30 |-> P(1 + (i % 2), RMut(i))]

Params ==
  CASE Profile = "SIZE"  -> Sizes
    [] Profile = "BYTE"  -> {<<b, lo>> : b \in (IF QUICK THEN {1, 2} ELSE 1..4), lo \in 0..14}
    [] Profile = "RND"   -> {<<1>>}
Init == out = FALSE /\ par \in Params
Next == /\ ~out /\ out' = TRUE /\ par' = par
        /\ Emit(CASE Profile = "SIZE" -> ShapeScript(par)
                  [] Profile = "BYTE" -> ByteScript(par[1], par[2])
                  [] Profile = "RND"  -> RndScript(par))
Spec == Init /\ [][Next]_vars
=============================================================================
