----------------------------- MODULE BuilderGen -----------------------------
(* Every sequence of builder calls up to a length, and long random ones.    *)
EXTENDS Builder, Json, IOUtils
Profile == IOEnv.PROFILE
N       == atoi(IOEnv.N)
SIM     == IOEnv.SIM = "1"
VARIABLES b, steps, hist, fin
vars == <<b, steps, hist, fin>>
Emit(st) == PrintT(<<"SCRIPT", ToJson([fam |-> "cfg", steps |-> st])>>)
One(S) == IF SIM THEN {RandomElement(S)} ELSE S

Bad == IF SIM THEN {"A", "A", "B", "C"} ELSE {"A", "B"}
Vals(op) ==
  CASE op \in FileOps -> Bad
    [] op = "vfn" -> {"yes", "no"}
    [] op = "name" -> {"x.example", "y"}
    [] op = "prng" -> {"simple", "urandom"}
    [] op = "keylog" -> {"keys.log"}
    [] OTHER -> {""}
OpsOf(k) == IF k = "server" THEN ServerOps ELSE ClientOps
Start(k) == CASE Profile = "FULL" -> << <<"cert", "A">>, <<"key", "B">> >>
              [] OTHER -> <<>>
RECURSIVE SetAll(_, _)
SetAll(x, h) == IF h = <<>> THEN x ELSE SetAll(Set(x, h[1][1], h[1][2]), SubSeq(h, 2, Len(h)))
Steps(h) == [i \in 1..Len(h) |-> [op |-> h[i][1], v |-> h[i][2]]]

Init ==
  \E k \in {"server", "client"}, d \in {"new", "default"} :
    /\ b = SetAll(Fresh(k), Start(k))
    /\ hist = Start(k)
    /\ steps = <<[op |-> k, v |-> d]>> \o Steps(Start(k))
    /\ fin = FALSE
Len0 == IF Profile = "FULL" THEN 2 ELSE 0
RandomOp(x) == RandomElement(OpsOf(b.kind))
RandomVal(op) == RandomElement(Vals(op))
Call(op, v) ==
  /\ b' = Set(b, op, v)
  /\ hist' = Append(hist, <<op, v>>)
  /\ steps' = Append(steps, [op |-> op, v |-> v])
  /\ fin' = FALSE
Build ==
  /\ fin' = TRUE /\ hist' = hist /\ b' = b
  /\ steps' = Append(steps, [op |-> "build", v |-> ""])
  /\ Emit(steps')
\* an unusable file for each option, at the end
Spoil ==
  /\ Profile = "SPOIL" /\ Len(hist) >= N
  /\ \E op \in FileOps \cap OpsOf(b.kind), v \in {"junk", "missing", "torn", "other"} :
       /\ fin' = TRUE /\ hist' = hist /\ b' = b
       /\ steps' = steps \o <<[op |-> op, v |-> v], [op |-> "name", v |-> "y"], [op |-> "build", v |-> ""],
                              [op |-> b.kind, v |-> "new"], [op |-> "cert", v |-> "A"], [op |-> "key", v |-> "C"], [op |-> "build", v |-> ""]>>
       /\ Emit(steps')
Next ==
  /\ ~fin
  /\ \/ Len(hist) < N + Len0 /\ (IF SIM THEN \E op \in {RandomOp(1)} : \E v \in {RandomVal(op)} : Call(op, v)
                                 ELSE \E op \in OpsOf(b.kind) : \E v \in Vals(op) : Call(op, v))
     \/ (~SIM \/ Len(hist) >= N) /\ Profile # "SPOIL" /\ Build
     \/ Spoil
Spec == Init /\ [][Next]_vars

(* The machine against a declarative reading: the value of an option is that of its last call. *)
LastOf(f) == LET is == {i \in 1..Len(hist) : Field(hist[i][1]) = f}
             IN IF is = {} THEN NoBuilder[f] ELSE LET i == CHOOSE i \in is : \A j \in is : j <= i IN Value(hist[i][1], hist[i][2])
LastWins == \A f \in {"cert", "key", "ca", "vfn", "keylog", "name", "prng"} : b[f] = LastOf(f)
Given(f) == \E i \in 1..Len(hist) : hist[i][1] = f
CompleteMeans ==
  Complete(b) <=> IF b.kind = "server" THEN Given("cert") /\ Given("key") /\ (Given("vfn") => Given("ca"))
                  ELSE Given("cert") => Given("key")
=============================================================================
