------------------------------ MODULE PairBase ------------------------------
(***************************************************************************)
(* The library against itself: what a client and a server configuration    *)
(* must make of each other, and the two byte streams between them.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

PGet(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

BadServerCert(c) == c.cert \in {"s_expired", "s_notyet"}
ClientCertGood(c) == c.ccert \in {"c_ok", "c_big", "c_huge", "c_small", "c_noext", "c_deny"}
Denied(c) == c.verify = "no" \/ (c.verify = "cn" /\ c.ccert = "c_deny")
PairCn(c) == CASE c.ccert = "c_deny" -> "denied" [] c.ccert = "c_small" -> "c" [] OTHER -> "client"

(* ok: both sides; server, client: codes of the error each side reports
   ({} = the handshake call succeeds); read: error of the client's first read *)
Outcome(c) ==
  CASE c.sni # "" /\ c.ssni # "" /\ c.sni # c.ssni -> [srv |-> {112}, cli |-> {112}, read |-> {}]
    [] BadServerCert(c) -> [srv |-> {42, 45, 46, 48}, cli |-> {42, 45, 46, 48}, read |-> {}]
    [] c.auth /\ c.ccert = "" -> [srv |-> {116, 40, 42}, cli |-> {}, read |-> {116, 40, 42}]
    [] c.auth /\ ~ClientCertGood(c) -> LET x == {42, 43, 44, 45, 46, 47, 48, 49, 50, 51} IN [srv |-> x, cli |-> {}, read |-> x]
    [] c.auth /\ Denied(c) -> [srv |-> {49, 42, 46}, cli |-> {}, read |-> {49, 42, 46}]
    [] OTHER -> [srv |-> {}, cli |-> {}, read |-> {}]
Completes(c) == Outcome(c).srv = {}
Calls(c) == IF Completes(c) /\ c.auth /\ c.verify # "none" THEN <<PairCn(c)>> ELSE <<>>
=============================================================================
