------------------------------- MODULE TlsGen -------------------------------
(***************************************************************************)
(* Peers for the conformance runs.  A peer starts from the script of an    *)
(* honest peer and makes at most K edits to it: another variant of a step, *)
(* an extra step, a missing step, two steps in the other order, an early   *)
(* end.  TLC enumerates the edited scripts (or samples them, -simulate)    *)
(* while the machine of Tls13 runs along: its safety properties are        *)
(* checked in every state, and every completed script is printed for       *)
(* replay against the real library.                                        *)
(***************************************************************************)
EXTENDS Tls13, Json, IOUtils

Profile == IOEnv.PROFILE
K       == atoi(IOEnv.K)
Tier    == IOEnv.TIER
Thorough == Tier = "thorough"
(* sampling: edits are spread over the whole handshake *)
Coin(x) == IF "SIM" \in DOMAIN IOEnv /\ IOEnv.SIM = "1" THEN RandomElement(1..12) = 1 ELSE TRUE

VARIABLES cfg, pos, ss, hist, dev, done
vars == <<cfg, pos, ss, hist, dev, done>>

Hs(m)     == [k |-> "hs", m |-> m]
HsV(m, v) == [k |-> "hs", m |-> m, v |-> v]
HsE(m, e) == [k |-> "hs", m |-> m, e |-> e]
HsVE(m, v, e) == [k |-> "hs", m |-> m, v |-> v, e |-> e]
With(h, f, x) == (f :> x) @@ h
Close     == [k |-> "close"]
Seq2Set(q) == Range(q)

----------------------------------------------------------------------------
(* Honest scripts                                                          *)
ChStep(c) ==
  LET h == [k |-> "hs", m |-> "ch", suites |-> c.offer]
      a == IF Get(c, "chsni", "") = "" THEN h ELSE With(h, "sni", c.chsni)
      b == IF Get(c, "grease", 0) = 0 THEN a ELSE With(a, "grease", c.grease)
  IN b
ShStep(c) == [k |-> "hs", m |-> "sh", suite |-> c.suite]
CertStep(c) == IF Get(c, "pcert", "") = "" THEN Hs("cert") ELSE HsV("cert", c.pcert)
Data(n) == [k |-> "data", n |-> n]

Honest0(c) ==
  IF c.role = "server"
  THEN <<ChStep(c)>>
       \o (IF Get(c, "ccs", FALSE) \/ Get(c, "pack", "") = "ccs" THEN <<[k |-> "ccs"]>> ELSE <<>>)
       \o (IF c.auth THEN <<CertStep(c), Hs("cv")>> ELSE <<>>)
       \o <<Hs("fin"), Data(10)>>
  ELSE <<ShStep(c)>>
       \o (IF Get(c, "ccs", FALSE) \/ Get(c, "pack", "") = "ccs" THEN <<[k |-> "ccs"]>> ELSE <<>>)
       \o <<Hs("ee")>>
       \o (IF Get(c, "cr", FALSE) THEN <<Hs("cr")>> ELSE <<>>)
       \o <<CertStep(c), Hs("cv"), Hs("fin"), Data(10)>>

(* packing of the honest flight, which must not matter *)
Pack(c, h) ==
  LET p == Get(c, "pack", "none")
      m == Get(h, "m", "")
  IN IF h.k # "hs" THEN h
     ELSE CASE p = "frag1"  -> With(h, "frag", IF m \in {"ch", "sh"} THEN 7 ELSE 1)
            [] p = "frag5"  -> With(h, "frag", 5)
            [] p = "frag64" -> With(h, "frag", 64)
            [] p = "pad"    -> IF m \in {"ch", "sh"} THEN h ELSE With(h, "pad", 33)
            [] p = "join"   -> IF m \in {"ee", "cr", "cert", "cv"} THEN With(h, "join", TRUE) ELSE h
            [] p = "join2"  -> IF m \in {"ee", "cert"} THEN With(h, "join", TRUE) ELSE h
            [] p = "joinfrag" -> IF m \in {"ee", "cr", "cert", "cv"} THEN With(h, "join", TRUE)
                                 ELSE IF m = "fin" THEN With(h, "frag", 50) ELSE h
            [] OTHER -> h
HonestSeq(c) == LET q == Honest0(c) IN [i \in 1..Len(q) |-> Pack(c, q[i])]

----------------------------------------------------------------------------
(* Configurations                                                          *)
SuiteSet == {4865, 4866, 4867}
SrvCfg(su, au, ve) ==
  [role |-> "server", auth |-> au, verify |-> ve, sni |-> "", offer |-> <<su>>, suite |-> su,
   logging |-> TRUE, keylog |-> TRUE]
CliCfg(su, cc, cr) ==
  [role |-> "client", sni |-> "", ccert |-> cc, cr |-> cr, offer |-> <<su>>, suite |-> su,
   logging |-> TRUE, keylog |-> TRUE]

Add(S, f, X) == {With(c, f, x) : c \in S, x \in X}
ServersPlain == {SrvCfg(su, FALSE, "none") : su \in SuiteSet}
ServersAuth  == {SrvCfg(su, TRUE, ve) : su \in SuiteSet, ve \in {"none", "yes", "no", "cn"}}
ServersAuth1 == {SrvCfg(4866, TRUE, "none"), SrvCfg(4865, TRUE, "yes"), SrvCfg(4867, TRUE, "cn"), SrvCfg(4865, TRUE, "no")}
Clients      == {CliCfg(su, cc, cr) : su \in SuiteSet, cc \in {"", "c_ok"}, cr \in BOOLEAN}
Clients1     == {CliCfg(4865, "", FALSE), CliCfg(4866, "c_ok", TRUE), CliCfg(4867, "", TRUE)}
Seg(S, X) == Add(S, "seg", X)


(* server names: unset, two different ones; offered: equal ones, prefixes,
   suffixes, extensions, other cases, one changed character *)
Names == {"", "#64", "#255", "#256", "#300", "a.example", "b.example", "a", "host.a-very-long-label.example.org"}
Offered == Names \cup {"a.exampl", ".example", "example", "e", "A.example", "a.EXAMPLE", "a.example.org", "a.example.",
                      "xa.example", "b.a.example", "a.examplf", "a_example", "a.exemple", "aa.example", "b", "aa",
                      "#300x", "#300y", "#299", "#256x", "#44", "#1000",
                      "host.a-very-long-label.example.or", "ost.a-very-long-label.example.org",
                      "host.a-very-long-label.example.orh", "localhost"}
SniServers == {[SrvCfg(su, FALSE, "none") EXCEPT !.sni = a] @@ [chsni |-> b] : su \in SuiteSet, a \in Names, b \in Offered}
              \cup {[SrvCfg(4865, TRUE, "yes") EXCEPT !.sni = a] @@ [chsni |-> b] : a \in Names, b \in Names}
SniClients == {[CliCfg(su, "", FALSE) EXCEPT !.sni = a] : su \in SuiteSet, a \in Names}

(* long offers with one suite of interest, after and before other ones *)
Long(n, k, x) == [i \in 1..n |-> IF i = k THEN x ELSE IF i % 7 = 3 THEN 4865 ELSE IF i % 7 = 5 THEN 4866 ELSE 49152 + i]
(* all orders and subsets of the suites, with and without unknown ones *)
Offers == {<<4865>>, <<4866>>, <<4867>>, <<4865, 4866>>, <<4866, 4865>>, <<4865, 4867>>, <<4867, 4865>>,
           <<4866, 4867>>, <<4867, 4866>>, <<4865, 4866, 4867>>, <<4867, 4866, 4865>>, <<4866, 4867, 4865>>,
           <<2570, 4866>>, <<4866, 255>>, <<49195, 4865>>, <<4868, 4869, 4867>>, <<4868>>, <<4869, 4868>>,
           <<0>>, <<49195, 156>>, <<19>>, <<4866, 4868>>, <<4865, 4865>>, <<6931, 4882, 4865>>}
LongOffers ==
          {Long(n, k, x) : n \in {4, 7, 8, 9, 16, 17, 33, 64, 127, 200}, k \in {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 64, 100, 127, 200}, x \in {4867}}
          \cup {Long(n, n, x) : n \in {2, 3, 5, 10, 18, 40, 128, 300}, x \in {4865, 4866, 4867, 4868}}
OfferServers == {[SrvCfg(4865, FALSE, "none") EXCEPT !.offer = o] : o \in Offers}

OwnServerCerts == Sized("s_") \cup {"s_small", "s_big", "s_huge", "s_giant", "s_colossal", "s_other"}
OwnClientCerts == Sized("c_") \cup {"c_small", "c_big", "c_huge", "c_giant", "c_colossal", "c_noext"}

MadeToMeasure(c) == Get(c, "cert", "") \in Sized("s_") \/ Get(c, "ccert", "") \in Sized("c_")
LongCfgs == Seg({SrvCfg(4865, FALSE, "none")}, {"whole"})

(* pairs of edits, exhaustively, over a smaller menu *)
Lite == Profile \in {"PairS", "PairC"}
Pick(S, T) == IF Lite THEN T ELSE S

Packs == {"ccs", "frag1", "frag5", "frag64", "pad", "join", "join2", "joinfrag"}

Few == {SrvCfg(4865, FALSE, "none"), SrvCfg(4867, TRUE, "yes"), SrvCfg(4866, TRUE, "none")} \cup Clients1
All == ServersPlain \cup ServersAuth \cup Clients

Cfgs ==
  CASE Profile = "H02" -> {x \in Seg(All, {"whole"}) \cup Add(Seg(Few, {"whole"}), "pack", Packs)
                                 \cup Add(Seg(Few, {"whole"}), "ccs", {TRUE})
                                 (* certificates of the library's side *)
                                 \cup Add(Seg({x \in Few : x.role = "server"}, {"whole"}), "cert", OwnServerCerts)
                                 \cup {[x EXCEPT !.ccert = y] : x \in Seg({z \in Clients1 : z.cr}, {"whole"}), y \in OwnClientCerts} : Verify(x) # "no"}
    [] Profile = "S01" -> Seg(ServersPlain, {"whole", "coal"}) \cup Seg(ServersAuth1, {"whole"})
    [] Profile = "S02" -> Seg(ServersAuth, {"whole"}) \cup Add(Seg(ServersAuth1, {"coal"}), "pcert", {"c_deny", "c_big"})
    [] Profile = "S03" -> Seg(Clients1, {"whole", "coal"}) \cup Add(Seg(Clients1, {"whole"}), "pcert", {"s_small", "s_big"})
    [] Profile = "H03" -> Seg(ServersPlain \cup OfferServers \cup Clients1, {"whole"})
    [] Profile = "H04" -> Seg(SniServers \cup SniClients, {"whole"})
    [] Profile = "R04" -> Add(Seg(Few, {"whole", "coal", "byte", "cut7", "hdr", "rand", "sig"}), "pack", Packs \cup {"none"})
    [] Profile = "PairS" -> Seg({SrvCfg(4865, TRUE, "cn"), SrvCfg(4867, FALSE, "none")}, {"whole"})
    [] Profile = "PairC" -> Seg({CliCfg(4866, "c_ok", TRUE), CliCfg(4865, "", FALSE)}, {"whole"})
    [] Profile = "A02s" -> Seg({SrvCfg(4865, TRUE, "yes"), CliCfg(4866, "c_ok", TRUE)}, {"whole"})
    [] Profile \in {"L01", "L01s"} -> Seg(Few \cup ServersAuth1, {"whole"})
    [] Profile = "K01" -> Seg({[x EXCEPT !.logging = l, !.keylog = l] : x \in Few, l \in BOOLEAN}, {"whole"})
    [] OTHER -> Seg(Few, {"whole"})

Groups ==
  CASE Profile = "S01" -> {"fin", "enc", "order", "tail", "close", "ccs"}
    [] Profile = "S02" -> {"cert", "cv", "fin", "enc", "order", "close"}
    [] Profile = "S03" -> {"cert", "cv", "fin", "enc", "order", "close", "ee", "cr"}
    [] Profile = "H01" -> {"order", "ccs", "alert", "data", "inner", "rec", "tail", "mid", "close"}
    [] Lite -> {"lite", "fin", "cert", "cv", "order"}
    [] Profile = "H03" -> {"ch", "sh"}
    [] Profile = "H04" -> {"sni"}
    [] Profile = "H02" -> {"compat"}
    [] Profile = "R04" -> {"mid", "tail", "fin", "order"}
    [] Profile = "A02" -> {"mut", "raw", "rec", "inner", "alert", "len", "mid", "tail", "close", "enc"}
    [] Profile = "L01" -> {"fin", "cert", "cv", "order", "close", "alert", "mid", "stale", "enc", "ch", "sh"}
    [] Profile = "L01s" -> {"stale"}
    [] Profile \in {"A02m", "A02s"} -> {"mut"}
    [] OTHER -> {"fin", "enc", "order", "tail", "close", "ccs", "cert", "cv", "ee", "cr", "ch", "sh",
                 "alert", "data", "inner", "rec", "mid", "len"}
G(x) == x \in Groups

----------------------------------------------------------------------------
(* Edits                                                                   *)
EncVariants == IF Lite THEN {} ELSE {"plain", "clear", "ap", "hs", "badtag", "badct", "badver", "badlen", "skip", "back", "short",
                "outer22", "wrongkey", "wrongiv", "eutkey", "replay", "reflect"}
FinVariants == IF Lite THEN {"bit", "empty", "peerkey", "prevts"} ELSE {"pair", "swap2", "rev", "rot", "carry", "tailbad", "headbad", "random", "not", "bit", "first", "last", "trunc", "half", "ext", "dbl", "empty", "zero", "peerkey", "prevts",
                "chonly", "emptyts", "nomac", "rawmac", "appkey", "master"}
CvVariants  == IF Lite THEN {"otherkey", "prevts", "zero", "der0", "sbit"} ELSE {"peerlabel", "prevts", "chts", "emptyts", "otherkey", "nolabel", "plainhash", "rbit", "sbit",
                "swap", "zero", "szero", "r1", "s1", "rs1", "rs", "small", "rs1023", "rn", "sn", "der0", "dergarbage", "dertrunc", "dertrail", "reflect",
                "bigr", "rplusn", "splusn", "int70", "int200", "padint", "longlen", "three", "oneint", "noint", "int0", "octets", "set", "indef",
                "ints4", "pad63", "notr", "halftr",
                "rsa", "s384", "s521", "ed25519", "s0", "nothing", "one", "schemeonly", "lenover", "lenunder", "trail"}
ClientCerts == IF Lite THEN {"c_expired", "c_self", "c_deny", "c_samename"} ELSE {"c_ok", "c_big", "c_huge", "c_small", "c_noext", "c_deny", "c_ca", "c_expired", "c_notyet",
                "c_samename", "c_self", "c_badca", "c_tbsflip", "c_nameflip", "c_keyswap", "c_sigflip",
                "c_endflip", "c_ca2", "s_ok", "s_other", "x_exp_tail", "x_exp_alg", "x_exp_head", "x_exp_mid",
                "x_deny_tail", "x_deny_alg", "x_key_tail", "x_key_bits", "x_key_alg", "x_key_bits_alg",
                "x_key_mid", "x_two_tbs", "x_tbs_two", "x_tbs_last", "x_der_tail", "x_der_head", "x_own"}
               \cup ClientValid \cup ClientInvalid
ServerCerts == IF Lite THEN {"s_expired", "s_other"} ELSE {"s_ok", "s_big", "s_huge", "s_small", "s_other", "s_expired", "s_notyet"}
               \cup ServerValid \cup ServerInvalid
CertForms   == IF Lite THEN {"empty", "ctxbad", "nothing", "garbage"} ELSE {"ctxbad", "ctxempty", "ctxlong", "ctxpre", "ctxother", "chain2", "trail", "ext", "empty",
                "nothing", "ctxover", "listover", "zerolen", "garbage", "truncder", "list1", "list2", "list3", "list4", "noexts", "extover"}
CrVariants  == {"ctx", "ctx1", "ctx255", "noalg", "more", "list", "rsa", "trunc", "empty", "badext"}
EeVariants  == {"groups", "alpn", "sniack", "unknown", "trail", "noblock"}
(* message types that do not exist, or have no meaning in TLS 1.3 *)
KnownTypes == {1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254}
TypeOf(m) == CASE m = "ch" -> 1 [] m = "sh" -> 2 [] m = "ee" -> 8 [] m = "cr" -> 13 [] m = "cert" -> 11 [] m = "cv" -> 15 [] OTHER -> 20
OtherTypes(m) == ({0, 3, 6, 7, 9, 10, 12, 14, 16, 17, 18, 19, 21, 22, 23, 25, 26, 67, 99, 255}
                  \cup {(TypeOf(m) + d) % 256 : d \in {16, 32, 64, 128, 192, 224}}) \ KnownTypes
LenVariants == {"hlen-", "hlen+", "hlenmax"}
ChVariants  == {"sniempty", "snitype", "ksempty", "comp2", "legacy", "extlen+", "extlen-", "noext",
                "oddsuites", "trail", "tiny", "empty",
                "dupall", "dupvers", "dupshare", "dupsigs", "duplist", "odd"}
SomeSigs == <<1283, 1539, 2052, 2053, 2057, 1025, 64250, 515>>
OtherGroups == <<"p256", "x448", "grease", "p384", "p521", "p256_empty", "p256">>
ChShareLists == {<<>>, <<"p256">>, <<"x448">>, <<"kyber">>, <<"grease">>, <<"p256", "x25519">>, <<"x25519", "p256">>,
                 <<"kyber", "x25519">>, <<"grease", "x25519">>, <<"x448", "p256">>, <<"p384", "p521", "ffdhe">>,
                 <<"grease", "kyber", "p256", "x25519">>, <<"p256_empty", "x25519">>, <<"p256_empty">>,
                 <<"ffdhe", "x25519">>, <<"x25519:zero">>, <<"x25519:one">>, <<"x25519:ord8">>, <<"x25519:pm1">>,
                 <<"x25519:p">>, <<"x25519:short">>, <<"x25519:long">>, <<"x25519:empty">>, <<"x25519:len1">>,
                 <<"x25519:highbit">>, <<"p256", "x25519:zero">>, <<"x25519:short", "p256">>}
LongShares ==
                {[i \in 1..n |-> IF i = k THEN "x25519" ELSE OtherGroups[1 + (i % 7)]] : n \in {3, 4, 5, 6, 8, 12, 20}, k \in {1, 2, 3, 4, 5, 6, 8, 12, 20}}
ChSigLists == {<<>>, <<1027>>, <<1283>>, <<2052, 1027>>, <<1027, 2052>>, <<1283, 1539, 515>>, <<1025, 1281, 1537>>, <<2055>>, <<513>>,
               <<1026>>, <<1028>>, <<772>>, <<259>>, <<771>>}
              \cup {[i \in 1..n |-> IF i = k THEN 1027 ELSE SomeSigs[1 + (i % 8)]] : n \in {5, 8, 9, 16, 40, 100}, k \in {1, 4, 5, 8, 9, 16, 40, 100, 101}}
ChVersLists == {<<>>, <<771>>, <<770, 771>>, <<772, 771>>, <<771, 772>>, <<2570, 772>>, <<769>>, <<32540>>,
                <<773>>, <<773, 772>>, <<768, 769, 770, 771, 772>>, <<771, 771, 771>>, <<3>>, <<1027>>}
LongVers ==
               {[i \in 1..n |-> IF i = k THEN 772 ELSE IF i % 3 = 1 THEN 2570 + 4112 * (i % 15) ELSE 772 - (i % 5) - 1] : n \in {2, 3, 4, 5, 6, 7, 10, 30, 64, 127}, k \in {1, 3, 4, 5, 6, 7, 10, 30, 64, 127, 128}}

ChEdits(h) ==
       {With(h, "v", v) : v \in ChVariants}
  \cup {With(h, "shares", q) : q \in ChShareLists}
  \cup {With(h, "vers", q) : q \in ChVersLists}
  \cup {With(h, "suites", q) : q \in Offers}
  \cup {With(h, "rot", k) : k \in 1..5}
  \cup {With(h, "sid", n) : n \in {0, 1, 31, 32, 33, 64, 128, 255}}
  \cup {With(h, "grease", n) : n \in {1, 500, 9000, 15999, 16000, 20000, 50000}} \cup {With(h, "rev", TRUE)}
(* wherever the name stands, whatever stands beside it, and a second name *)
SniEdits(c, h) ==
       {With(h, "rot", k) : k \in 1..5} \cup {With(h, "rev", TRUE), With(h, "grease", 300)}
  \cup {With(With(h, "rot", k), "grease", 1) : k \in {1, 3, 6, 9, 11}}
  \cup (IF c.sni # "" THEN {With(h, "suites", q) : q \in {<<4867, 4865>>, <<4866, 4865>>}} ELSE {})
  \cup (IF "sni" \in DOMAIN h /\ (h.sni = c.sni \/ c.sni = "") THEN {With(With(h, "v", "snidup"), "sni2", x) : x \in Names \ {""}} ELSE {})
  \cup (IF "sni" \in DOMAIN h THEN {With(With(h, "v", "snidup"), "sni2", c.sni)} ELSE {})
ChLong(h) ==
       {With(h, "sigs", q) : q \in ChSigLists}
  \cup {With(h, "suites", q) : q \in LongOffers}
  \cup {With(h, "shares", q) : q \in LongShares}
  \cup {With(h, "vers", q) : q \in LongVers}
(* what a conforming client may offer, a conforming server may choose *)
CompatLong(h) ==
       {With(h, "sigs", q) : q \in {x \in ChSigLists : 1027 \in Range(x)}}
  \cup {With(h, "suites", q) : q \in {x \in LongOffers : Range(x) \cap Suites # {}}}
  \cup {With(h, "shares", q) : q \in {x \in LongShares : "x25519" \in Range(x)}}
  \cup {With(h, "vers", q) : q \in {x \in LongVers : 772 \in Range(x)}}
CompatCh(h) ==
       {With(h, "shares", q) : q \in {s \in ChShareLists : \E i \in 1..Len(s) : s[i] \in {"x25519", "x25519:highbit"}} \ {<<"p256", "x25519:zero">>, <<"x25519:short", "p256">>}}
  \cup {With(h, "vers", q) : q \in {s \in ChVersLists : \E i \in 1..Len(s) : s[i] = 772}}
  \cup {With(h, "suites", q) : q \in {s \in Offers : Range(s) \cap Suites # {}}}
  \cup {With(h, "sid", n) : n \in 0..32}
  \cup {With(h, "rot", k) : k \in 1..5}
  \cup {With(h, "grease", n) : n \in {1, 2, 3, 100, 500, 2000, 9000, 15000, 16000, 25000, 60000}} \cup {With(h, "rev", TRUE)}
  \cup {With(h, "sni", n) : n \in Names \ {""}}
CompatSh(h) == {With(h, "rev", TRUE), With(h, "share", "highbit")}
CompatCert(c, h) == {With(h, "v", x) : x \in (IF "pack" \in DOMAIN c THEN {} ELSE Sized(IF c.role = "server" THEN "c_" ELSE "s_")) \cup IF c.role = "server" THEN {"c_ok", "c_big", "c_huge", "c_giant", "c_small", "c_noext"} \cup (ClientValid \ Sized("c_")) ELSE {"s_ok", "s_big", "s_huge", "s_giant", "s_small", "s_other"} \cup (ServerValid \ Sized("s_"))}
CompatEtc(h) ==
       (IF h.k = "hs" THEN {With(h, "frag", n) : n \in IF h.m \in {"ee", "fin", "cr"} THEN {1, 2, 3, 4, 5} ELSE {3, 4, 5, 50, 250, 1000, 16000}} ELSE {})
  \cup (IF h.k = "hs" /\ h.m \notin {"ch", "sh"} THEN {With(h, "pad", n) : n \in {1, 15, 16, 255, 256, 5000}} ELSE {})
  \cup (IF h.k = "hs" /\ h.m \in {"ee", "cr", "cert", "cv"} THEN {With(h, "join", TRUE)} ELSE {})

ShEdits(h) ==
       {With(h, "v", v) : v \in {"hrr", "novers", "noks", "unkext", "unkext0", "legacy", "trail", "comp",
                          "dupver", "dupver0", "dupks", "dupks0", "dupkey", "dupkey0", "dupall"}}
  \cup {With(h, "grp", v) : v \in {"p256", "x448", "grease"}}
  \cup {With(h, "share", v) : v \in {"zero", "one", "ord8", "pm1", "p", "short", "long", "empty", "len1", "highbit"}}
  \cup {With(h, "sid", v) : v \in {"diff", "bit", "first", "mid", "last", "empty", "short", "long", "swap", "zero"}}
  \cup {With(h, "ver", v) : v \in {771, 770, 768, 773, 32540, 0, 3, 1027}}
  \cup {With(h, "suite", v) : v \in {4865, 4866, 4867, 4868, 4869, 49195, 0, 255, 156, 19, 787, 4864, 4863, 5121, 4611, 65535}}
  \cup {With(h, "rev", TRUE)}

(* material of an earlier connection of the same server or client *)
StaleVariants(m, enc) ==
       (IF m \in {"fin", "cv"} THEN {[v |-> "stale"]} ELSE {})
  \cup (IF m = "cert" THEN {[v |-> "ctxother"]} ELSE {})
  \cup (IF enc THEN {[e |-> "cross"]} ELSE {})

(* certificate lists: the first one is the peer's *)
Chains(c, h) == IF Lite THEN {} ELSE
  {With(With(h, "v", x), "chain", y) :
     <<x, y>> \in IF c.role = "server"
                 THEN {"c_ok", "c_expired", "c_notyet", "c_self", "c_samename", "s_ok", "c_deny", "c_ca2"} \X {"c_ok", "ca", "c_expired", "c_self", "c_deny", "s_ok"}
                 ELSE {"s_ok", "s_expired", "s_notyet", "s_other"} \X {"s_ok", "s_other", "s_expired", "c_ok", "ca"}}

(* other variants of the step h *)
Variants(c, h) ==
  LET m == Get(h, "m", "")
      enc == h.k # "hs" \/ m \notin {"ch", "sh"}
  IN   (IF G("stale") /\ h.k # "ccs" THEN {x @@ h : x \in StaleVariants(m, enc)} ELSE {})
  \cup (IF G("enc") /\ enc /\ h.k # "ccs" THEN {With(h, "e", x) : x \in EncVariants} ELSE {})
  \cup (IF G("fin") /\ m = "fin" THEN {With(h, "v", x) : x \in FinVariants} ELSE {})
  \cup (IF G("cv") /\ m = "cv" THEN {With(h, "v", x) : x \in CvVariants} ELSE {})
  \cup (IF G("cert") /\ m = "cert"
        THEN {With(h, "v", x) : x \in CertForms \cup (IF c.role = "server" THEN ClientCerts ELSE ServerCerts)} ELSE {})
  \cup (IF G("cert") /\ m = "cert" THEN Chains(c, h) ELSE {})
  \cup (IF G("cr") /\ m = "cr" THEN {With(h, "v", x) : x \in CrVariants} ELSE {})
  \cup (IF G("ee") /\ m = "ee" THEN {With(h, "v", x) : x \in EeVariants} ELSE {})
  \cup (IF G("ch") /\ m = "ch" THEN ChEdits(h) \cup (IF c \in LongCfgs THEN ChLong(h) ELSE {}) ELSE {})
  \cup (IF G("sh") /\ m = "sh" THEN ShEdits(h) ELSE {})
  \cup (IF G("sni") /\ m = "ch" /\ ~c.auth /\ c.suite = 4865 THEN SniEdits(c, h) ELSE {})
  \cup (IF G("compat") /\ m = "ch" THEN CompatCh(h) \cup (IF c \in LongCfgs THEN CompatLong(h) ELSE {}) ELSE {})
  \cup (IF G("compat") /\ m = "sh" THEN CompatSh(h) ELSE {})
  \cup (IF G("compat") /\ m = "cert" /\ ~(c.role = "server" /\ Verify(c) = "no") THEN CompatCert(c, h) ELSE {})
  \cup (IF G("compat") /\ h.k = "hs" /\ DOMAIN h \cap {"frag", "pad", "join"} = {} THEN CompatEtc(h) ELSE {})
  \cup (IF G("compat") /\ m = "ee" THEN {With(h, "v", "groups")} ELSE {})
  \cup (IF G("len") /\ h.k = "hs" THEN {With(h, "v", x) : x \in LenVariants} ELSE {})
  \cup (IF G("order") /\ ~Lite /\ h.k = "hs" THEN {With(With(h, "v", "ty"), "ty", x) : x \in OtherTypes(m)} ELSE {})
  \cup (IF G("tail") /\ m \in {"ch", "sh", "fin"} /\ "frag" \notin DOMAIN h
        THEN {With(h, "tail", x) : x \in {"msg", "part", "one"}} ELSE {})
  \cup (IF G("order") /\ ~G("enc") /\ enc /\ h.k # "ccs" THEN {With(h, "e", x) : x \in Pick({"plain", "clear", "hs", "ap"}, {"clear"})} ELSE {})
  \cup (IF G("order") /\ h.k = "hs" /\ Get(c, "pack", "none") \notin {"join", "join2", "joinfrag"}
        THEN {With(h, "ct", x) : x \in Pick({20, 21, 23, 24}, {23})} ELSE {})
  \cup (IF G("mid") /\ h.k = "hs" /\ "join" \notin DOMAIN h
        THEN {With(With(h, "mid", x), "frag", n) : x \in {"ccs", "alert", "data", "empty"}, n \in IF m = "ee" THEN {3} ELSE {3, 10}} ELSE {})
  \cup (IF G("order") /\ h.k = "hs" /\ m # "ch"
        THEN {[k |-> "hs", m |-> x] : x \in Pick({"cert", "cv", "fin", "ee", "cr", "nst", "ku", "eoed", "mh"}, {"cert", "cv", "fin", "cr"}) \ {m}} ELSE {})
  \cup (IF G("data") /\ h.k = "data" THEN {With(h, "drop", TRUE), With(h, "n", 0), With(h, "n", 16384)}
                                          \cup {With(With(h, "n", 16380), "pad", 40)} ELSE {})

(* every alert of RFC 8446 and of its predecessors, and others *)
AlertCodes == ANYCODE \cup {1, 2, 9, 11, 21, 30, 41, 52, 60, 86, 90, 100, 111, 113, 114, 115, 117, 120, 121, 127, 128, 200, 250, 251, 252, 253, 254, 255}

(* steps an attacker may insert before step i *)
Extras(c, i, n) ==
  LET first == i = 1 /\ c.role = "server"      \* before the ClientHello
      started == ~first
  IN   (IF G("compat") /\ i \in 2..(Len(HonestSeq(c)) - 1)
        THEN {[k |-> "ccs"]} ELSE {})
  \cup (IF G("ccs") /\ ~first THEN {[k |-> "ccs"]} ELSE IF G("ccs") THEN {[k |-> "ccs", e |-> "plain"]} ELSE {})
  \cup (IF G("ccs") /\ i > 1 THEN {[k |-> "ccs", e |-> x] : x \in {"hs", "ap", "badtag"}} ELSE {})
  \cup (IF G("alert") THEN {[k |-> "alert", code |-> x] : x \in AlertCodes} ELSE {})
  \cup (IF G("alert") THEN {[k |-> "alert", code |-> 40, v |-> x] : x \in {"short", "empty", "long"}} ELSE {})
  \cup (IF G("alert") THEN {[k |-> "alert", code |-> x, level |-> l] : x \in {0, 40, 90}, l \in {0, 1, 3}} ELSE {})
  \cup (IF G("alert") /\ i > 1 THEN {[k |-> "alert", code |-> 40, e |-> x] : x \in {"plain", "badtag", "hs", "ap"}} ELSE {})
  \cup (IF G("data") THEN {[k |-> "data", n |-> x] : x \in {0, 1, 100}} ELSE {})
  \cup (IF G("data") /\ i > 1 THEN {[k |-> "data", n |-> 9, e |-> x] : x \in {"plain", "hs", "ap", "badtag"}} ELSE {})
  \cup (IF G("inner") /\ i > 1 THEN {[k |-> "inner", ty |-> x, n |-> y] : x \in {0, 1, 20, 24, 99, 255}, y \in {0, 1, 40}} ELSE {})
  \cup (IF G("rec") THEN {[k |-> "rec", ty |-> x, n |-> y] : x \in {0, 19, 20, 22, 23, 24, 128, 255}, y \in {0, 1, 5, 200}}
                         \cup {[k |-> "rec", ty |-> x, n |-> y] : x \in {20, 22, 23, 24}, y \in {16384, 16385, 16640, 16641, 17000, 65535}} ELSE {})
  \cup (IF G("rec") THEN {[k |-> "rec", ty |-> 22, m |-> "fin", hex |-> "140000200000000000000000000000000000000000000000000000000000000000000000"],
                          [k |-> "rec", ty |-> 22, m |-> "ee", hex |-> "080000020000"],
                          [k |-> "rec", ty |-> 22, m |-> "hr", hex |-> "00000000"],
                          [k |-> "rec", ty |-> 22, m |-> "cert", hex |-> "0b00000400000000"]} ELSE {})
  \cup (IF G("order") /\ started
        THEN {Hs(x) : x \in Pick({"ch", "sh", "ee", "cr", "cert", "cv", "fin", "nst", "ku", "eoed", "mh"}, {"cr", "cert", "cv", "fin"})}
             \cup {With(Hs(x), "nt", TRUE) : x \in Pick({"ch", "sh", "ee", "cr", "cert", "cv", "nst", "ku", "eoed", "mh", "hr"}, {"cert", "cv", "nst"})} ELSE {})
  \cup (IF G("order") /\ started /\ i > 1 THEN {HsE(x, "plain") : x \in Pick({"ch", "sh", "cert", "fin", "nst", "cr"}, {})} ELSE {})
  \cup (IF G("fin") /\ i > 1 THEN {HsVE("fin", x, "hs") : x \in {"zero", "prevts"}} ELSE {})
  \cup (IF G("raw") THEN {[k |-> "raw", n |-> x] : x \in {1, 4, 5, 6, 40, 300, 17000}}
                         \cup {[k |-> "raw", hex |-> x] : x \in
                               {"1603030000", "16030300", "160303000101", "1703030000", "1703030001ff", "170303ffff",
                                "1503030002022816", "150303000102", "1503030000", "1403030000", "16030340010b",
                                "160303000401000000", "16030300040b000000", "1603030004ffffffff", "1603ff000401000000",
                                "804601030100", "474554202f20485454502f312e310d0a0d0a", "16030100020100"}} ELSE {})

(* arbitrary alterations of a message: their outcome is open, but the
   library has to come back.  "in": inside the certificate or the signature,
   the enclosing lengths stay consistent; "fix": the message length is. *)
Top(m)    == CASE m \in {"ch", "sh"} -> 210 [] m = "cert" -> 440 [] m = "cv" -> 80 [] m = "cr" -> 50 [] m = "fin" -> 52 [] OTHER -> 8
TopIn(m)  == CASE m = "cert" -> 430 [] m = "cv" -> 72 [] OTHER -> -1
MutOp(o, p, x, f) == [op |-> o, pos |-> p, val |-> x, fix |-> f]
MutIn(o, p, x)    == [op |-> o, pos |-> p, val |-> x, in |-> "in"]
Mutate(h, mu) == [h EXCEPT !.k = "hs"] @@ [v |-> "mut", mut |-> mu]
(* one random alteration *)
RandomMut(h) ==
  LET ops == {"trunc", "flip", "set", "add", "ins", "del", "dup"} IN
  {Mutate(h, MutOp(RandomElement(ops), RandomElement(0..Top(h.m)), RandomElement({0, 1, 127, 128, 129, 254, 255} \cup 0..255), f)) : f \in BOOLEAN}
  \cup (IF TopIn(h.m) < 0 THEN {} ELSE {Mutate(h, MutIn(RandomElement(ops), RandomElement(0..TopIn(h.m)), RandomElement(0..255)))})
(* every position *)
EveryMut(h) ==
  {Mutate(h, MutOp("trunc", p, 0, TRUE)) : p \in 4..Top(h.m)}
  \cup {Mutate(h, MutOp("set", p, x, FALSE)) : p \in 0..Top(h.m), x \in IF Thorough THEN {0, 1, 127, 128, 130, 254, 255} ELSE {0, 255}}
  \cup {Mutate(h, MutOp("add", p, x, FALSE)) : p \in 0..Top(h.m), x \in {1, 255}}
  \cup {Mutate(h, MutIn("trunc", p, 0)) : p \in 0..TopIn(h.m)}
  \cup {Mutate(h, MutIn("set", p, x)) : p \in 0..TopIn(h.m), x \in IF Thorough THEN {0, 1, 2, 3, 127, 128, 129, 130, 132, 136, 255} ELSE {0, 130, 136, 255}}
  \cup {Mutate(h, MutIn("add", p, x)) : p \in 0..TopIn(h.m), x \in {1, 255}}
  \cup {Mutate(h, MutIn("del", p, 0)) : p \in 0..TopIn(h.m)}
Mutations(h) ==
  IF ~G("mut") \/ h.k # "hs" THEN {}
  ELSE IF Profile = "A02s" THEN EveryMut(h) ELSE RandomMut(h)

----------------------------------------------------------------------------
Play(S, e) == UNION {React(cfg, x, e) : x \in S}
Stuck(S)   == \E x \in S : x.part
Over       == \/ pos > Len(HonestSeq(cfg))
              \/ Stuck(ss)
              \/ hist # <<>> /\ hist[Len(hist)].k \in {"close", "cut", "rst"}

Init == /\ cfg \in Cfgs
        /\ pos = 1 /\ hist = <<>> /\ done = FALSE
        /\ dev = IF MadeToMeasure(cfg) THEN K ELSE 0
        /\ ss = {Init0(cfg)}

Do(e) == /\ hist' = Append(hist, e)
         /\ ss' = Play(ss, e)
Cur == HonestSeq(cfg)[pos]

Follow == /\ ~Over /\ ~done
          /\ Do(Cur) /\ pos' = pos + 1 /\ UNCHANGED <<cfg, dev, done>>
Vary   == /\ ~Over /\ ~done /\ dev < K /\ Coin(pos)
          /\ \E e \in Variants(cfg, Cur) \cup Mutations(Cur) : Do(e)
          /\ pos' = pos + 1 /\ dev' = dev + 1 /\ UNCHANGED <<cfg, done>>
Insert == /\ ~Over /\ ~done /\ dev < K /\ Coin(pos)
          /\ \E e \in Extras(cfg, pos, Len(hist)) : Do(e)
          /\ dev' = dev + 1 /\ UNCHANGED <<cfg, pos, done>>
Skip   == /\ ~Over /\ ~done /\ dev < K /\ Coin(pos) /\ G("order")
          /\ (pos > 1)
          /\ pos' = pos + 1 /\ dev' = dev + 1 /\ UNCHANGED <<cfg, ss, hist, done>>
Twice  == /\ ~Over /\ ~done /\ dev < K /\ Coin(pos) /\ G("order") /\ pos > 1
          /\ hist' = hist \o <<Cur, Cur>> /\ ss' = Play(Play(ss, Cur), Cur)
          /\ pos' = pos + 1 /\ dev' = dev + 1 /\ UNCHANGED <<cfg, done>>
Swap   == /\ ~Over /\ ~done /\ dev < K /\ Coin(pos) /\ G("order") /\ pos > 1 /\ pos < Len(HonestSeq(cfg))
          /\ LET q == HonestSeq(cfg) IN
               /\ hist' = hist \o <<q[pos + 1], q[pos]>>
               /\ ss' = Play(Play(ss, q[pos + 1]), q[pos])
          /\ pos' = pos + 2 /\ dev' = dev + 1 /\ UNCHANGED <<cfg, done>>
(* the next message is already sent, unprotected, together with the hello *)
Early  == /\ ~Over /\ ~done /\ dev < K /\ Coin(pos) /\ G("tail")
          /\ Get(Cur, "m", "") = "sh" /\ "frag" \notin DOMAIN Cur
          /\ pos < Len(HonestSeq(cfg)) /\ Get(HonestSeq(cfg)[pos + 1], "m", "") = "ee"
          /\ Do(With(Cur, "tail", "next"))
          /\ pos' = pos + 2 /\ dev' = dev + 1 /\ UNCHANGED <<cfg, done>>
End    == /\ ~Over /\ ~done /\ dev < K /\ Coin(pos) /\ G("close")
          /\ \E e \in {Close} \cup {[k |-> "cut", n |-> x] : x \in {1, 4, 5, 20}}
                     (* (a reset may overtake what the library still has to say) *)
                     \cup (IF \A x \in ss : x.pc \notin {"READY", "DEAD", "ANY"} THEN {[k |-> "rst"]} ELSE {}) : Do(e)
          /\ dev' = dev + 1 /\ UNCHANGED <<cfg, pos, done>>
Finish == /\ Over /\ ~done
          /\ done' = TRUE
          /\ PrintT(<<"SCRIPT", ToJson([role |-> cfg.role, cfg |-> cfg, steps |-> hist,
                                        want |-> {x.pc : x \in ss}])>>)
          /\ UNCHANGED <<cfg, pos, ss, hist, dev>>
Next == Follow \/ Vary \/ Insert \/ Skip \/ Twice \/ Swap \/ Early \/ End \/ Finish
Spec == Init /\ [][Next]_vars

(* in one behaviour of the peer all reactions are covered *)
SafeAll == \A x \in ss : /\ (cfg.role = "server" => SafeServer(cfg, x))
                         /\ (cfg.role = "client" => SafeClient(cfg, x))
                         /\ SafeOutput(x)
(* what a conforming peer does always leads to a session *)
Compatible == Profile = "H02" /\ done => \A x \in ss : x.pc = "READY" /\ x.rerr = {}
(* the machine has no dead end before the call returns *)
Live == ss # {}
=============================================================================
