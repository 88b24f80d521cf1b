------------------------------ MODULE Builder -------------------------------
(***************************************************************************)
(* The configuration builders: a builder holds the last value of every     *)
(* option; building succeeds exactly when the configuration is complete.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Files == {"A", "B", "C"}                      \* usable certificate and key files
FileOps == {"cert", "key", "ca"}
ServerOps == {"cert", "key", "ca", "vfn", "keylog", "enkeylog", "name", "prng"}
ClientOps == {"cert", "key", "keylog", "enkeylog", "name"}
Field(op) == IF op = "enkeylog" THEN "keylog" ELSE op
Value(op, v) == IF op = "enkeylog" THEN "keylog.txt" ELSE v

NoBuilder == [kind |-> "gone", cert |-> "none", key |-> "none", ca |-> "none", vfn |-> "none", keylog |-> "none", name |-> "none", prng |-> "urandom"]
Fresh(kind) == [NoBuilder EXCEPT !.kind = kind]

\* a file a certificate or key cannot be loaded from.  (A server's own certificate is only
\* passed on, never interpreted.)
Unusable(b, op, v) == op \in FileOps /\ v \notin Files /\ ~(op = "cert" /\ b.kind = "server" /\ v = "torn")
Unclear(b, op, v)  == op = "cert" /\ b.kind = "server" /\ v = "torn"
Set(b, op, v) == [b EXCEPT ![Field(op)] = IF Unusable(b, op, v) THEN "bad" ELSE Value(op, v)]

Complete(b) ==
  /\ "bad" \notin {b.cert, b.key, b.ca}
  /\ IF b.kind = "server" THEN b.cert # "none" /\ b.key # "none" /\ ~(b.vfn # "none" /\ b.ca = "none")
     ELSE b.kind = "client" /\ ~(b.cert # "none" /\ b.key = "none")

(* judge *)
Reported(b, e) ==
  /\ e.cert = b.cert \/ b.cert = "torn"
  /\ e.key = b.key /\ e.keylog = b.keylog /\ e.name = b.name
  /\ b.kind = "server" => e.ca = b.ca /\ e.vfn = b.vfn /\ e.prng = b.prng
BuilderStep(b, e) ==
  CASE e.t \in {"server", "client"} -> {Fresh(e.t)}
    [] e.t = "skip" -> IF b.kind = "gone" THEN {b} ELSE {}
    [] e.t = "build" ->
         IF b.kind = "gone" THEN (IF e.ok THEN {} ELSE {NoBuilder})
         ELSE IF e.ok = Complete(b) /\ (e.ok => Reported(b, e)) THEN {NoBuilder} ELSE {}
    [] e.t \in ServerOps \cup ClientOps ->
         \* only an unusable file may stop the program, and only then
         IF e.panic THEN (IF Unusable(b, e.t, e.v) \/ Unclear(b, e.t, e.v) THEN {NoBuilder} ELSE {})
         ELSE {Set(b, e.t, e.v)}
    [] OTHER -> {}
=============================================================================
