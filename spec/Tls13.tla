------------------------------- MODULE Tls13 -------------------------------
(***************************************************************************)
(* State machine of one AnotherTLS connection (either role) as it must     *)
(* look to its peer and to its caller.                                     *)
(*                                                                         *)
(* The peer is arbitrary: it performs "steps" (send a message in some      *)
(* variant and protection, a CCS, an alert, data, garbage, close ...).     *)
(* React(cfg, s, e) is the set of states the connection may be in after    *)
(* the peer's step e.  What the connection must send because of it is      *)
(* appended to s.out, what the call must return is fixed in s.res/s.codes, *)
(* what may be read afterwards in s.avail/s.rerr.                          *)
(*                                                                         *)
(* Steps are records as in the generated scripts:                          *)
(*   k   kind: hs ccs alert data swap inner raw rec close cut rst          *)
(*   m   handshake message, v its variant ("" = as an honest peer)         *)
(*   e   protection variant ("" / "ok" = as an honest peer)                *)
(*   tail: another message is packed behind this one in the same record    *)
(*   frag, pad, join: packing, which must not matter                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
Range(q) == {q[i] : i \in 1..Len(q)}

----------------------------------------------------------------------------
(* Error codes (RFC 8446 section 6); 254 = transport closed.               *)
CLOSED   == {254}
UNEXP    == {10}
MAC      == {20}
DECODE   == {50}
ANYCODE  == {0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70,
             71, 80, 109, 110, 112, 116}
CERTBAD  == {42, 43, 44, 45, 46, 47, 48, 49, 50, 51}
Official == ANYCODE

Suites   == {4865, 4866, 4867}
ChaCha   == 4867

----------------------------------------------------------------------------
(* Levels: which keys protect what the role sends/receives.                *)
Lvl(n) == CASE n = 0 -> "plain" [] n = 1 -> "hs" [] OTHER -> "ap"

IsServer(cfg) == cfg.role = "server"
Auth(cfg)     == Get(cfg, "auth", FALSE)
Verify(cfg)   == Get(cfg, "verify", "none")
Sni(cfg)      == Get(cfg, "sni", "")
CCert(cfg)    == Get(cfg, "ccert", "")

(* An output the connection still has to produce. *)
Msg(m, l)       == [t |-> "msg", m |-> m, lvl |-> l, opt |-> FALSE, codes |-> {}, suites |-> {}]
Hello(m, su)    == [t |-> "msg", m |-> m, lvl |-> "plain", opt |-> FALSE, codes |-> {}, suites |-> su]
Alert(l, codes) == [t |-> "alert", m |-> "", lvl |-> l, opt |-> FALSE, codes |-> codes, suites |-> {}]

Init0(cfg) ==
  [ pc     |-> IF IsServer(cfg) THEN "CH" ELSE "SH",
    pw     |-> 0,        \* level at which the peer writes
    sl     |-> 0,        \* level at which this role writes
    sync   |-> "yes",    \* does the peer's transcript equal ours: yes, no, maybe
    err    |-> {},       \* pending failure (reported with the peer's Finished)
    cert   |-> "none",   \* what is known about the peer's certificate
    cr     |-> "none",   \* client: CertificateRequest seen (none, ok, odd, bad)
    part   |-> FALSE,    \* an incomplete handshake message is buffered
    gap    |-> FALSE,    \* a record of the peer was lost
    out    |-> IF IsServer(cfg) THEN <<>> ELSE <<Hello("ch", {})>>,
    res    |-> "none",   \* result of the handshake call: none, ok, err
    codes  |-> {},       \* allowed errors
    alert  |-> -1,       \* code of the alert seen on the wire
    vfn    |-> <<>>,     \* calls of the verify function still to be seen
    klog   |-> {},       \* key log lines that must be there
    suites |-> {},       \* server: suites the ServerHello may name
    avail  |-> 0,        \* authentic application bytes received
    empty  |-> FALSE,    \* an empty data record was received
    rpos   |-> 0,        \* bytes delivered to the caller
    rerr   |-> {},       \* error that ends the incoming stream ({} = none yet)
    rfail  |-> FALSE,    \* a read has failed
    wpos   |-> 0,        \* bytes accepted from the caller
    dpos   |-> 0,        \* bytes that arrived at the peer
    acc    |-> <<>> ]    \* ghost: messages accepted, with their variants

(* Receiving level *)
RL(s) == IF s.pc \in {"CH", "SH"} THEN 0 ELSE IF s.pc = "READY" THEN 2 ELSE 1
Open(s) == s.pc \notin {"DEAD", "ANY"}

(* The handshake fails with one of the codes; an alert is sent for it. *)
Dead(s, codes) ==
  [s EXCEPT !.pc = "DEAD", !.res = "err", !.codes = codes, !.part = FALSE,
            !.out = Append(s.out, Alert(Lvl(s.sl), codes))]
(* It fails without an alert (transport closed, or alert of the peer). *)
Quiet(s, codes) ==
  [s EXCEPT !.pc = "DEAD", !.res = "err", !.codes = codes, !.part = FALSE]
(* In the application phase the incoming stream ends with an error. *)
ReadFails(s, codes) == IF s.rerr = {} THEN [s EXCEPT !.rerr = codes] ELSE s
(* Failure in whatever phase *)
Fail(s, codes) == IF s.pc = "READY" THEN ReadFails(s, codes) ELSE Dead(s, codes)
Hush(s, codes) == IF s.pc = "READY" THEN ReadFails(s, codes) ELSE Quiet(s, codes)
(* The standard leaves this open, or the outcome depends on random bytes:
   every reaction is fine as long as the call returns. *)
AnyOutcome(s) == [s EXCEPT !.pc = "ANY"]

Accept(s, e) == [s EXCEPT !.acc = Append(@, <<e.m, Get(e, "v", "")>>)]
Pending(s, codes) == [s EXCEPT !.pc = "FWE", !.err = codes]
(* A rejected credential may be reported at once or with the Finished. *)
Reject(s, codes) == {Pending(s, codes), Dead(s, codes)}

----------------------------------------------------------------------------
(* ClientHello                                                             *)
GoodShare(x) == x \in {"x25519", "x25519:highbit"}
ZeroShare(x) == x \in {"x25519:zero", "x25519:one", "x25519:pm1", "x25519:p", "x25519:ord8"}
BadShare(x)  == x \in {"x25519:short", "x25519:long", "x25519:empty", "x25519:len1"}
IsX25519(x)  == GoodShare(x) \/ ZeroShare(x) \/ BadShare(x)

ChSuites(e) == Get(e, "suites", <<4865>>)
ChVers(e)   == Get(e, "vers", <<772>>)
ChShares(e) == Get(e, "shares", <<"x25519">>)
ChSigs(e)   == Get(e, "sigs", <<1027>>)
ChSni(e)    == IF Get(e, "sni", "none") \in {"none", ""} THEN "none" ELSE e.sni

(* Suites the server may choose: one the client offered and, if ChaCha20
   is offered, that one. *)
MayChoose(e) ==
  LET off == Range(ChSuites(e)) \cap Suites
  IN IF ChaCha \in off THEN {ChaCha} ELSE off

(* All reasons to refuse a well-formed ClientHello. *)
ChObjections(cfg, e) ==
  LET sh  == ChShares(e)
      xs  == SelectSeq(sh, IsX25519)
  IN    (IF MayChoose(e) = {} THEN {40, 71} ELSE {})
   \cup (IF ChVers(e) = <<>> THEN {70, 109, 71, 40} ELSE {})
   \cup (IF ChVers(e) # <<>> /\ 772 \notin Range(ChVers(e)) THEN {70, 71, 40} ELSE {})
   \cup (IF sh = <<>> THEN {40, 71, 109} ELSE {})
   \cup (IF sh # <<>> /\ Len(xs) = 0 THEN {40, 71, 109} ELSE {})
   \cup (IF \E i \in 1..Len(xs) : ~GoodShare(xs[i]) THEN {47, 50} ELSE {})
   \cup (IF Sni(cfg) # "" /\ ChSni(e) \notin {"none", Sni(cfg)} THEN {112} ELSE {})
   \cup (IF Get(e, "sid", 32) > 32 THEN DECODE \cup {47} ELSE {})

ServerFlight(cfg, e) ==
  <<Hello("sh", MayChoose(e)), Msg("ee", "hs")>>
  \o (IF Auth(cfg) THEN <<Msg("cr", "hs")>> ELSE <<>>)
  \o <<Msg("cert", "hs"), Msg("cv", "hs"), Msg("fin", "hs")>>

OnClientHello(cfg, s, e) ==
  LET v == Get(e, "v", "")
      obj == ChObjections(cfg, e)
      good == [Accept(s, e) EXCEPT !.pc = IF Auth(cfg) THEN "CCERT" ELSE "CFIN",
                       !.out = @ \o ServerFlight(cfg, e), !.pw = 1, !.sl = 1,
                       !.suites = MayChoose(e),
                       !.klog = {"shs", "chs"}]
      proceed == IF obj = {} THEN {good} ELSE {Dead(s, obj)}
  IN CASE v \in {"", "ok", "grease"} ->
            (* without a signature algorithm the server supports it may give
               up, or try nevertheless *)
            proceed \cup (IF 1027 \notin Range(ChSigs(e)) THEN {Dead(s, obj \cup {40, 47, 50, 71, 109})} ELSE {})
       [] v \in {"extlen+", "extlen-", "tiny", "empty", "oddsuites"} -> {Dead(s, DECODE \cup {47})}
       [] v = "noext" -> {Dead(s, {50, 70, 109, 40, 71})}
       [] v = "ksempty" -> {Dead(s, {40, 47, 50, 71, 109})}
       [] v = "hlen-" -> {Dead(s, UNEXP \cup DECODE)}
       [] v = "hlen+" -> {[s EXCEPT !.part = TRUE], Dead(s, DECODE)}
       [] v = "hlenmax" -> {[s EXCEPT !.part = TRUE], Dead(s, {10, 22, 47, 50, 80})}
       (* leniency the standard forbids but no property relies on *)
       (* two server name extensions: if the message is not refused for that,
          both names count *)
       [] v = "snidup" ->
            LET o == obj \cup (IF Sni(cfg) # "" /\ e.sni2 # Sni(cfg) THEN {112} ELSE {})
            IN (IF o = {} THEN {good} ELSE {}) \cup {Dead(s, o \cup {10, 47, 50, 112})}
       (* any other extension twice *)
       [] v \in {"dupall", "dupvers", "dupshare", "dupsigs", "duplist", "odd"} ->
            proceed \cup {Dead(s, {10, 40, 47, 50, 70, 71, 109, 112} \cup obj)}
       [] v \in {"trail", "comp2", "legacy", "sniempty", "snitype"} ->
            proceed \cup {Dead(s, {10, 47, 50, 70, 112} \cup obj)}
       [] OTHER -> {AnyOutcome(s)}

----------------------------------------------------------------------------
(* Certificates and CertificateVerify of the peer                          *)
(* Certificates in several styles (extensions, string types, names), and
   with several validity periods: valid now, not any more, not yet. *)
CertStyles  == <<"plain", "ext", "extbig", "print", "names">>
CertPeriods == <<"ok", "oklong", "exp1m", "exp1h", "exp1y", "exp99", "exp70", "exp60", "not1h", "not1y", "not49", "notexp">>
CertVariants(role, P) ==
  {role \o CertPeriods[j] \o "_" \o CertStyles[i] :
     <<i, j>> \in {ij \in (1..5) \X P : ij[1] <= 2 \/ (ij[1] + ij[2] - 2) % 4 = 0 \/ ij[2] = 1}}
ValidNow == 1..2
(* certificates with an exact number of bytes: around the values where the
   nested lengths carry into another byte, and where records get full *)
CertSizes == {505, 506, 507, 508, 509, 510, 511, 512, 513, 763, 765, 767, 1024, 16366, 16370, 16371, 16372, 16375, 16384,
              32755, 32759, 65000}
Sized(role) == {role \o "n" \o ToString(n) : n \in CertSizes}
ClientValid   == CertVariants("c_", ValidNow) \cup Sized("c_")
ClientInvalid == CertVariants("c_", 3..12)
ServerValid   == CertVariants("s_", ValidNow) \cup Sized("s_")
ServerInvalid == CertVariants("s_", 3..12)

SignedByCa == ClientValid \cup {"", "ok", "ext", "chain2", "c_ok", "c_big", "c_huge", "c_giant", "c_colossal", "c_small", "c_noext", "c_deny", "c_ca"}
UnsignedParts == {"x_key_tail", "x_key_bits", "x_key_alg", "x_key_bits_alg", "x_der_tail", "x_tbs_last"}
ClientCn(v) == IF v \in {"c_deny", "x_deny_tail", "x_deny_alg"} THEN "denied" ELSE IF v = "c_small" THEN "c"
               ELSE IF v = "c_ca" THEN "Verif CA" ELSE "client"
OwnKey(v) == v # "c_ca"

(* The certificate list may go on after the certificate of the peer.  What
   follows proves nothing, and need not be looked at. *)
Chained(e, s, S) ==
  IF "chain" \notin DOMAIN e THEN S
  ELSE IF e.chain \in SignedByCa \cup ServerValid \cup {"ca", "s_ok", "s_other"} THEN S
  ELSE S \cup Reject(Accept(s, e), CERTBAD)

OnClientCert1(cfg, s, e) ==
  LET v == Get(e, "v", "")
      a == Accept(s, e)
      called == IF Verify(cfg) = "none" THEN a ELSE [a EXCEPT !.vfn = Append(@, ClientCn(v))]
      denied == Verify(cfg) = "no" \/ (Verify(cfg) = "cn" /\ ClientCn(v) = "denied")
      fine == [called EXCEPT !.pc = "CCV", !.cert = IF OwnKey(v) THEN "ok" ELSE "nokey"]
      good == IF denied THEN Reject(called, {49, 42, 46}) ELSE {fine}
  IN CASE v = "c_ca" -> good \cup Reject(a, CERTBAD)
       (* unsigned elements around the signed part: if they are not refused
          they must not count *)
       [] v \in UnsignedParts -> {[x EXCEPT !.cert = "nokey"] : x \in good} \cup Reject(a, CERTBAD)
       [] v \in {"x_deny_tail", "x_deny_alg"} -> good \cup Reject(a, CERTBAD)
       [] v \in SignedByCa -> good
       [] v \in {"ctxbad", "ctxempty", "ctxlong", "ctxpre", "ctxother"} -> Reject(a, {40, 47, 50})
       [] v \in {"ctxover", "nothing", "listover"} -> Reject(a, {50, 47, 40})
       [] v = "empty" -> Reject(a, {116})
       [] v = "trail" -> good \cup Reject(a, DECODE)
       [] v \in {"c_expired", "c_notyet"} \cup ClientInvalid -> Reject(a, {45})
       [] v \in {"mut"} -> {AnyOutcome(s)}
       [] v = "hlen-" -> Reject(a, {10, 50, 116, 42}) \cup {Dead(s, {10, 40, 50})}
       [] v \in {"hlen+", "hlenmax"} -> {[s EXCEPT !.part = TRUE], Dead(s, {10, 22, 47, 50, 80})}
       (* every other certificate is not signed by the CA, is altered, or
          is not a certificate at all *)
       [] OTHER -> Reject(a, CERTBAD)
OnClientCert(cfg, s, e) == Chained(e, s, OnClientCert1(cfg, s, e))

(* A CertificateVerify that proves possession of the certificate's key over
   this handshake. *)
CvGood(s, v) == v \in {"", "ok"} /\ s.cert = "ok" /\ s.sync = "yes"
CvLoose == {"padint", "longlen", "three", "set", "octets", "indef"}
CvCodes(v) ==
  CASE v \in {"s384", "s521"} -> {47, 42, 43, 51}
    [] v \in {"rsa", "ed25519", "s0"} -> {47, 50, 42, 43, 51}
    [] v \in {"nothing", "one", "schemeonly", "lenover", "lenunder", "trail"} -> {50, 42, 51, 47}
    [] OTHER -> {42, 51, 50, 47}

(* A refused message need not be part of the transcript the connection
   keeps, so that afterwards the peer's Finished may or may not match. *)
Unsync(S) == {[t EXCEPT !.sync = IF t.pc = "FWE" THEN "maybe" ELSE @] : t \in S}

OnVerify(cfg, s, e, next) ==
  LET v == Get(e, "v", "")
      a == Accept(s, e)
  IN CASE CvGood(s, v) -> {[a EXCEPT !.pc = next]}
       (* the signature is right, its encoding is not quite *)
       [] v \in CvLoose /\ CvGood(s, "ok") -> {[a EXCEPT !.pc = next]} \cup Unsync(Reject(a, CvCodes(v)))
       [] v = "mut" -> {AnyOutcome(s)}
       [] v = "hlen-" -> Unsync(Reject(a, {10, 50, 42, 51})) \cup {Dead(s, {10, 50})}
       [] v \in {"hlen+", "hlenmax"} -> {[s EXCEPT !.part = TRUE], Dead(s, {10, 22, 47, 50, 80})}
       [] OTHER -> Unsync(Reject(a, CvCodes(v)))

----------------------------------------------------------------------------
(* Finished                                                                *)
FinGood(s, e) == Get(e, "v", "") \in {"", "ok"} /\ s.sync = "yes"
FinMaybe(s, e) == Get(e, "v", "") \in {"", "ok"} /\ s.sync = "maybe"
FinCodes(v) == IF v \in {"trunc", "half", "ext", "dbl", "empty", "hlen-", "hlenmax"} THEN {51, 50, 10} ELSE {51}

OnClientFinished(cfg, s, e) ==
  LET v == Get(e, "v", "")
      a == Accept(s, e)
      keyed == [a EXCEPT !.sl = 2, !.klog = @ \cup {"sap", "cap"}]
  IN CASE v = "mut" -> {AnyOutcome(s)}
       [] v \in {"hlen+", "hlenmax"} -> {[s EXCEPT !.part = TRUE], Dead(s, {10, 22, 47, 50, 51, 80})}
       [] FinGood(s, e) /\ s.pc = "CFIN" ->
            {[keyed EXCEPT !.pc = "READY", !.res = "ok", !.pw = 2]}
       [] FinGood(s, e) /\ s.pc = "FWE" -> {Dead(keyed, s.err)}
       [] FinMaybe(s, e) -> {Dead(keyed, s.err), Dead(s, {51} \cup s.err)}
       [] OTHER -> {Dead(s, FinCodes(v) \cup s.err)}

OnServerFinished(cfg, s, e) ==
  LET v == Get(e, "v", "")
      a == Accept(s, e)
      answer == (IF s.cr = "none" THEN <<>>
                 ELSE IF CCert(cfg) = "" THEN <<Msg("cert", "hs")>>
                 ELSE <<Msg("cert", "hs"), Msg("cv", "hs")>>) \o <<Msg("fin", "hs")>>
      done == [a EXCEPT !.pc = "READY", !.res = "ok", !.pw = 2, !.sl = 2, !.out = @ \o answer,
                        !.klog = @ \cup {"sap", "cap"}]
  IN CASE v = "mut" -> {AnyOutcome(s)}
       [] v \in {"hlen+", "hlenmax"} -> {[s EXCEPT !.part = TRUE], Dead(s, {10, 22, 47, 50, 51, 80})}
       [] s.pc = "FWE" -> {Dead(s, s.err \cup FinCodes(v))}
       [] FinGood(s, e) /\ s.cr = "bad" -> {Dead(s, {50, 47, 109})}
       [] FinGood(s, e) /\ s.cr = "odd" -> {done, Dead(s, {40, 47, 50, 109, 43}),
             (* no matching key: an empty certificate is fine as well *)
             [done EXCEPT !.out = s.out \o <<Msg("cert", "hs"), Msg("fin", "hs")>>]}
       [] FinGood(s, e) -> {done}
       [] OTHER -> {Dead(s, FinCodes(v))}

----------------------------------------------------------------------------
(* ServerHello and the rest of the server's flight                         *)
OnServerHello(cfg, s, e) ==
  LET v == Get(e, "v", "")
      grp == Get(e, "grp", "x25519")
      share == Get(e, "share", "")
      sid == Get(e, "sid", "same")
      obj ==   (IF Get(e, "suite", 4865) \notin Suites THEN {47, 40, 50, 71} ELSE {})
          \cup (IF sid # "same" THEN {47} ELSE {})
          \cup (IF sid = "long" THEN DECODE ELSE {})
          \cup (IF Get(e, "ver", 772) # 772 THEN {47, 70, 71} ELSE {})
          \cup (IF v = "novers" THEN {70, 109, 47, 71} ELSE {})
          \cup (IF v = "noks" THEN {109, 40, 47} ELSE {})
          \cup (IF grp # "x25519" THEN {47, 40, 50, 71} ELSE {})
          \cup (IF grp = "x25519" /\ share \in {"zero", "one", "pm1", "p", "ord8"} THEN {47} ELSE {})
          \cup (IF grp = "x25519" /\ share \in {"short", "long", "empty", "len1"} THEN {47, 50} ELSE {})
      good == [Accept(s, e) EXCEPT !.pc = "EE", !.pw = 1, !.sl = 1, !.klog = {"shs", "chs"}]
      proceed == IF obj = {} THEN {good} ELSE {Dead(s, obj)}
  IN CASE v \in {"", "ok", "novers", "noks"} -> proceed
       [] v = "hlen-" -> {Dead(s, UNEXP \cup DECODE)}
       [] v \in {"hlen+", "hlenmax"} -> {[s EXCEPT !.part = TRUE], Dead(s, {10, 22, 47, 50, 80})}
       [] v \in {"legacy", "trail", "comp", "unkext", "unkext0"} ->
            proceed \cup {Dead(s, obj \cup {47, 50, 70, 110})}
       [] v = "dupall" -> proceed \cup {Dead(s, obj \cup {10, 47, 50})}
       (* two answers to one question *)
       [] v \in {"dupver", "dupver0", "dupks", "dupks0", "dupkey", "dupkey0"} -> {Dead(s, obj \cup {10, 40, 47, 50, 70, 71})}
       [] v = "hrr" -> {AnyOutcome(s)}
       [] OTHER -> {AnyOutcome(s)}

OnEncryptedExtensions(cfg, s, e) ==
  LET v == Get(e, "v", "")
      good == [Accept(s, e) EXCEPT !.pc = "CR"]
  IN CASE v \in {"", "ok", "groups"} -> {good}
       [] v = "sniack" /\ Sni(cfg) # "" -> {good}
       [] v = "mut" -> {AnyOutcome(s)}
       [] v = "hlen-" -> {good, Dead(s, {10, 50})}
       [] v \in {"hlen+", "hlenmax"} -> {[s EXCEPT !.part = TRUE], Dead(s, {10, 22, 47, 50, 80})}
       [] OTHER -> {good, Dead(s, {10, 47, 50, 110})}

OnCertificateRequest(cfg, s, e) ==
  LET v == Get(e, "v", "")
      a == [Accept(s, e) EXCEPT !.pc = "CERT"]
  IN CASE v \in {"", "ok", "ctx", "ctx1", "ctx255", "more", "list"} -> {[a EXCEPT !.cr = "ok"]}
       [] v \in {"trunc", "empty", "badext"} -> {[a EXCEPT !.cr = "bad"], Dead(s, {50, 47, 109})}
       [] v = "hlen-" -> {[a EXCEPT !.cr = "bad"], Dead(s, {10, 50, 47})}
       [] v \in {"noalg", "rsa"} -> {[a EXCEPT !.cr = "odd"], Dead(s, {40, 43, 47, 50, 109})}
       [] v = "mut" -> {AnyOutcome(s)}
       [] v \in {"hlen+", "hlenmax"} -> {[s EXCEPT !.part = TRUE], Dead(s, {10, 22, 47, 50, 80})}
       [] OTHER -> {AnyOutcome(s)}

OnServerCert1(cfg, s, e) ==
  LET v == Get(e, "v", "")
      a == Accept(s, e)
      good == [a EXCEPT !.pc = "SCV", !.cert = "ok"]
  IN CASE v \in {"", "ok", "ext", "chain2", "s_ok", "s_big", "s_huge", "s_giant", "s_colossal", "s_small", "s_other"} \cup ServerValid -> {good}
       [] v \in {"s_expired", "s_notyet"} \cup ServerInvalid -> Reject(a, {45})
       [] v = "empty" -> Reject(a, {50, 116, 42})
       (* a request context in the server's certificate *)
       [] v \in {"ctxbad", "ctxlong", "ctxother", "ctxpre", "ctxempty", "trail"} -> {good} \cup Reject(a, {47, 50})
       [] v \in {"ctxover", "nothing", "listover", "zerolen", "garbage", "truncder", "list1", "list2", "list3", "list4", "noexts", "extover"} -> Reject(a, CERTBAD)
       [] v = "mut" -> {AnyOutcome(s)}
       [] v = "hlen-" -> Reject(a, {10, 50, 116, 42}) \cup {Dead(s, {10, 40, 50})}
       [] v \in {"hlen+", "hlenmax"} -> {[s EXCEPT !.part = TRUE], Dead(s, {10, 22, 47, 50, 80})}
       [] OTHER -> {AnyOutcome(s)}
OnServerCert(cfg, s, e) == Chained(e, s, OnServerCert1(cfg, s, e))

----------------------------------------------------------------------------
(* One handshake message, received under the right keys                    *)
Changes == {"ch", "sh", "fin"}   \* the keys change after these messages

(* while a failure is pending other messages are tolerated *)
Tolerate(s, e) ==
  {Accept(s, e), Dead(s, UNEXP \cup DECODE \cup s.err)}
  \cup (IF Get(e, "v", "") \in {"hlen+", "hlenmax"} THEN {[s EXCEPT !.part = TRUE]} ELSE {})
  \cup (IF Get(e, "v", "") = "hlen-" THEN {[s EXCEPT !.sync = "maybe"]} ELSE {})

OnMessage(cfg, s, e) ==
  LET m == e.m
      wrong == {Dead(s, UNEXP \cup (IF Get(e, "v", "") \in {"", "ok"} THEN {} ELSE DECODE \cup {22})
                              \cup (IF m \in {"mh", "hr"} THEN DECODE ELSE {}))}
               \cup (IF Get(e, "v", "") \in {"hlen+", "hlenmax"} THEN {[s EXCEPT !.part = TRUE]} ELSE {})
  IN
  CASE s.part -> {AnyOutcome(s)}
    [] Get(e, "v", "") = "ty" /\ s.pc = "READY" -> {ReadFails(s, UNEXP \cup DECODE)}
    (* no message has this type *)
    [] Get(e, "v", "") = "ty" -> {Dead(s, UNEXP \cup DECODE \cup s.err)} \cup (IF s.pc = "FWE" /\ m # "fin" THEN {Accept(s, e)} ELSE {})
    [] m \in Changes /\ Get(e, "tail", "") # "" /\ s.pc # "READY" ->
         (* nothing may follow in the same record *)
         {Dead(s, UNEXP \cup DECODE \cup s.err
                  \cup (IF Get(e, "v", "") \in {"", "ok"} THEN {} ELSE {40, 47, 51, 70, 71, 109, 112}))}
    [] s.pc = "CH"    -> IF m = "ch" THEN OnClientHello(cfg, s, e) ELSE wrong
    [] s.pc = "CCERT" -> IF m = "cert" THEN OnClientCert(cfg, s, e)
                         ELSE IF m = "fin" THEN {Dead(s, UNEXP \cup {116, 42})} ELSE wrong
    [] s.pc = "CCV"   -> IF m = "cv" THEN OnVerify(cfg, s, e, "CFIN") ELSE wrong
    [] s.pc = "CFIN"  -> IF m = "fin" THEN OnClientFinished(cfg, s, e) ELSE wrong
    [] s.pc = "FWE"   -> IF m # "fin" THEN Tolerate(s, e)
                         ELSE IF IsServer(cfg) THEN OnClientFinished(cfg, s, e)
                         ELSE OnServerFinished(cfg, s, e)
    [] s.pc = "SH"    -> IF m = "sh" THEN OnServerHello(cfg, s, e) ELSE wrong
    [] s.pc = "EE"    -> IF m = "ee" THEN OnEncryptedExtensions(cfg, s, e) ELSE wrong
    [] s.pc = "CR"    -> IF m = "cr" THEN OnCertificateRequest(cfg, s, e)
                         ELSE IF m = "cert" THEN OnServerCert(cfg, s, e) ELSE wrong
    [] s.pc = "CERT"  -> IF m = "cert" THEN OnServerCert(cfg, s, e) ELSE wrong
    [] s.pc = "SCV"   -> IF m = "cv" THEN OnVerify(cfg, s, e, "SFIN") ELSE wrong
    [] s.pc = "SFIN"  -> IF m = "fin" THEN OnServerFinished(cfg, s, e) ELSE wrong
    [] s.pc = "READY" -> (* post-handshake messages are not supported; a client
                            may also skip NewSessionTicket *)
                         IF m = "nst" /\ ~IsServer(cfg) /\ Get(e, "v", "") \in {"", "ok"}
                         THEN {s, ReadFails(s, UNEXP)} ELSE {ReadFails(s, UNEXP \cup DECODE)}

----------------------------------------------------------------------------
(* Record protection                                                       *)
Forged == {"badtag", "badct", "badver", "badlen", "skip", "back", "short", "wrongkey",
           "wrongiv", "eutkey", "cross", "tagzero", "splice", "first", "replay", "reflect"}
Enc(e) == LET x == Get(e, "e", "") IN IF x = "" THEN "ok" ELSE x

(* Does the record open under the keys in force?  "ok" records are protected
   with the peer's current keys. *)
Opens(s, e) ==
  LET x == Enc(e)
  IN CASE x = "ok"    -> s.pw = RL(s) /\ ~(s.gap /\ s.pw > 0)
       [] x \in {"plain", "clear"} -> RL(s) = 0
       [] x = "hs"    -> RL(s) = 1 /\ ~s.gap
       [] x = "ap"    -> RL(s) = 2 /\ ~s.gap
       [] OTHER       -> FALSE

(* Reaction to a record that does not open *)
NotOpened(s, e) ==
  LET x == Enc(e)
  IN IF RL(s) = 0 THEN {Fail(s, UNEXP \cup DECODE \cup MAC)}
     ELSE CASE x \in {"plain", "clear"} /\ e.k = "data" -> {Fail(s, MAC \cup DECODE)}
            [] x \in {"plain", "clear", "outer22"} -> {Fail(s, UNEXP)}
            [] x = "reflect" -> {Fail(s, MAC \cup UNEXP)}
            [] x = "short"   -> {Fail(s, MAC \cup DECODE)}
            [] OTHER         -> {Fail(s, MAC)}

(* the message that is due, in a record of another content type *)
OnOtherType(cfg, s, e) ==
  CASE e.ct = 21 -> {Hush(s, ANYCODE), Fail(s, UNEXP \cup DECODE)}
    [] RL(s) = 0 /\ e.ct = 20 /\ s.pc = "SH" -> {AnyOutcome(s)}
    [] OTHER -> {Fail(s, UNEXP \cup DECODE \cup (IF RL(s) = 0 THEN MAC ELSE {}))}

OnHs(cfg, s, e) ==
  IF ~Opens(s, e) THEN NotOpened(s, e)
  ELSE IF s.part THEN {AnyOutcome(s)}
  ELSE IF "ct" \in DOMAIN e THEN OnOtherType(cfg, s, e)
  ELSE IF "nt" \in DOMAIN e
  THEN (* the peer does not count this message: it has to be refused where it
          is not due, not just to spoil the transcript *)
       LET R == OnMessage(cfg, s, e) IN
       IF \A x \in R : x.pc \in {"DEAD", "READY"} THEN R ELSE {AnyOutcome(s)}
  ELSE IF Get(e, "mid", "") # "" THEN
     (* a message in two records with something else in between *)
     CASE e.mid = "alert" -> {Hush(s, {40}), Fail(s, UNEXP)}
       [] e.mid = "empty" -> {Fail(s, UNEXP \cup DECODE)} \cup OnMessage(cfg, s, e)
       [] e.mid = "data" /\ RL(s) = 0 -> {Fail(s, UNEXP \cup DECODE \cup MAC)}
       [] OTHER           -> {Fail(s, UNEXP \cup DECODE)}
  ELSE OnMessage(cfg, s, e)

OnCcs(cfg, s, e) ==
  LET x == Enc(e)
  IN CASE s.part -> {AnyOutcome(s)}
       [] x \in {"ok", "plain"} ->     \* ChangeCipherSpec is never protected
         (CASE s.pc = "CH" -> {Dead(s, UNEXP)}
           [] s.pc = "SH" -> {s, Dead(s, UNEXP)}
           [] s.pc = "READY" -> {ReadFails(s, UNEXP)}
           [] OTHER -> {s})
       [] ~Opens(s, e) -> NotOpened(s, e)
       [] OTHER -> {Fail(s, UNEXP)}

(* (the library has no error for unsupported_extension, which it never
   causes, and treats it like the codes that do not exist) *)
KnownAlert(c) == c \in ANYCODE \ {110}
OnAlert(cfg, s, e) ==
  LET v == Get(e, "v", "")
      x == Enc(e)
      got == IF v \in {"short", "empty", "long"} THEN {Fail(s, DECODE \cup UNEXP \cup {e.code}), Hush(s, DECODE \cup UNEXP \cup {e.code})}
             ELSE IF KnownAlert(e.code) THEN {Hush(s, {e.code})}
             (* a code without an error (-1: an error without a code);
                the library uses 254 itself *)
             ELSE IF e.code = 254 /\ s.pc = "READY" THEN {AnyOutcome(s)}
             ELSE {Hush(s, ANYCODE \cup {e.code, -1})}
  IN CASE s.part -> {AnyOutcome(s)}
       [] Opens(s, e) -> got
       [] x = "plain" /\ s.pc # "READY" -> got \cup {Dead(s, UNEXP)}
       [] OTHER -> NotOpened(s, e)

OnData(cfg, s, e) ==
  CASE s.part -> {AnyOutcome(s)}
    [] Get(e, "drop", FALSE) -> {[s EXCEPT !.gap = TRUE]}
    [] ~Opens(s, e) -> NotOpened(s, e)
    [] s.pc # "READY" -> {Dead(s, UNEXP)}
    [] e.n + Get(e, "pad", 0) > 16384 -> {ReadFails(s, {22})}
    [] OTHER -> {IF s.rerr # {} THEN s
                 ELSE [s EXCEPT !.avail = @ + e.n, !.empty = @ \/ e.n = 0]}

(* two authentic records in the wrong order *)
OnSwap(cfg, s, e) == IF s.pc = "READY" THEN {ReadFails(s, MAC)} ELSE {AnyOutcome(s)}

(* protected record with another inner content type *)
OnInner(cfg, s, e) ==
  IF s.part THEN {AnyOutcome(s)}
  ELSE IF ~Opens(s, e) THEN NotOpened(s, e)
  ELSE IF e.ty = 0 /\ e.n > 0 THEN {AnyOutcome(s)}   \* a random byte is the type
  ELSE IF e.ty = 21 THEN {AnyOutcome(s)}
  ELSE IF e.ty = 22 THEN {AnyOutcome(s)}
  ELSE IF e.ty = 23 /\ s.pc = "READY" THEN {AnyOutcome(s)}
  ELSE {Fail(s, UNEXP \cup DECODE)}

(* plaintext record with arbitrary content; where it has a field m it holds a
   well-formed handshake message of that kind *)
Expects(s) == CASE s.pc = "CH" -> {"ch"} [] s.pc = "SH" -> {"sh"} [] OTHER -> {}
OnRec(cfg, s, e) ==
  IF s.part \/ e.ty = 21 THEN {AnyOutcome(s)}
  (* longer than any record may be *)
  ELSE IF Get(e, "n", 0) > 16640 THEN {Fail(s, {22} \cup (IF e.ty = (IF RL(s) = 0 THEN 22 ELSE 23) THEN {} ELSE UNEXP \cup DECODE))}
  ELSE IF RL(s) = 0
  THEN CASE e.ty = 22 -> IF Get(e, "m", "") = "" \/ e.m \in Expects(s) THEN {AnyOutcome(s)}
                         ELSE {Dead(s, UNEXP \cup DECODE)}
         [] e.ty = 20 /\ s.pc = "SH" -> {AnyOutcome(s)}
         [] OTHER -> {Dead(s, UNEXP \cup DECODE \cup MAC \cup {22})}
  ELSE IF e.ty = 20 /\ s.pc # "READY" THEN {s, Dead(s, UNEXP \cup DECODE \cup (IF Get(e, "n", 0) > 16384 THEN {22} ELSE {}))}
  ELSE IF e.ty = 23 THEN {Fail(s, MAC \cup DECODE \cup {22})}
  ELSE {Fail(s, UNEXP \cup DECODE \cup {22})}

(* the peer ends the connection, possibly in the middle of a record *)
OnClose(cfg, s, e) == {Hush(s, CLOSED)}

React(cfg, s, e) ==
  IF ~Open(s) THEN {s}
  ELSE IF s.pc = "READY" /\ s.rerr # {} THEN {s}   \* sticky
  ELSE CASE e.k = "hs"    -> OnHs(cfg, s, e)
         [] e.k = "ccs"   -> OnCcs(cfg, s, e)
         [] e.k = "alert" -> OnAlert(cfg, s, e)
         [] e.k = "data"  -> OnData(cfg, s, e)
         [] e.k = "swap"  -> OnSwap(cfg, s, e)
         [] e.k = "inner" -> OnInner(cfg, s, e)
         [] e.k = "rec"   -> OnRec(cfg, s, e)
         [] e.k = "raw"   -> {AnyOutcome(s)}
         [] e.k \in {"close", "cut", "rst"} -> OnClose(cfg, s, e)

(* When nothing more comes the peer has closed the connection. *)
AtEnd(cfg, s) == IF s.pc = "DEAD" \/ s.pc = "ANY" \/ s.rerr # {} THEN s ELSE Hush(s, CLOSED)

----------------------------------------------------------------------------
(* Safety properties of the machine, over the ghost history s.acc: what has *)
(* to have been accepted before a session exists.                          *)
Mentions(s, m) == {i \in 1..Len(s.acc) : s.acc[i][1] = m}
Honest(x) == x[2] \in {"", "ok"}

Proof(x) == Honest(x) \/ x[2] \in CvLoose
SafeServer(cfg, s) ==
  s.pc = "READY" =>
    /\ \A m \in {"ch", "fin"} : Cardinality(Mentions(s, m)) = 1
    /\ Honest(s.acc[Len(s.acc)]) /\ s.acc[Len(s.acc)][1] = "fin"
    /\ s.sync = "yes"
    /\ Len(s.acc) = IF Auth(cfg) THEN 4 ELSE 2
    /\ Auth(cfg) => /\ s.acc[2][1] = "cert" /\ s.acc[2][2] \in (SignedByCa \cup {"trail", "x_deny_tail", "x_deny_alg"}) \ {"c_ca"}
                    /\ s.acc[3][1] = "cv" /\ Proof(s.acc[3])
                    /\ Verify(cfg) # "no"
                    /\ ~(Verify(cfg) = "cn" /\ s.acc[2][2] \in {"c_deny", "x_deny_tail", "x_deny_alg"})
    /\ s.klog = {"shs", "chs", "sap", "cap"}

SafeClient(cfg, s) ==
  s.pc = "READY" =>
    /\ s.acc[1][1] = "sh" /\ s.acc[2][1] = "ee"
    /\ LET n == Len(s.acc) IN
         /\ s.acc[n][1] = "fin" /\ Honest(s.acc[n])
         /\ s.acc[n-1][1] = "cv" /\ Proof(s.acc[n-1])
         /\ s.acc[n-2][1] = "cert"
         /\ n = IF s.cr = "none" THEN 5 ELSE 6
         /\ s.cr # "none" => s.acc[3][1] = "cr"
         /\ s.cr # "bad"
    /\ s.klog = {"shs", "chs", "sap", "cap"}

(* nothing is promised to the caller before the handshake is complete; a
   failed handshake announces exactly one alert, and last *)
Alerts(s) == {i \in 1..Len(s.out) : s.out[i].t = "alert"}
SafeOutput(s) ==
  s.pc # "ANY" =>
  /\ Cardinality(Alerts(s)) <= 1
  /\ \A i \in Alerts(s) : i = Len(s.out) /\ s.pc = "DEAD"
  /\ s.res = "ok" <=> s.pc = "READY"
  /\ s.avail > 0 => s.pc = "READY"
  /\ s.pc = "DEAD" => s.codes # {} /\ s.avail = 0
  /\ s.rpos <= s.avail
  (* the client's Finished goes out exactly with the session *)
  /\ \A i \in 1..Len(s.out) : s.out[i].m = "fin" /\ s.out[1].m = "ch" => s.pc = "READY"
=============================================================================
