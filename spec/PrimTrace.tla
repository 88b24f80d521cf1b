----------------------------- MODULE PrimTrace ------------------------------
(* Judge: a recorded run of operations on the library's objects is accepted *)
(* iff every observation is what the ideal functionality allows.            *)
EXTENDS Prim, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, f
Init == run \in 1..Len(Runs) /\ l = 1 /\ f = F0
Step(fam, g, e) ==
  CASE fam = "hash" -> HashStep(g, e)
    [] fam = "hmac" -> HmacStep(g, e)
    [] fam = "aead" -> AeadStep(g, e)
    [] fam = "dh"   -> DhStep(g, e)
    [] fam = "sig"  -> SigStep(g, e)
    [] fam = "rng"  -> RngStep(g, e)
    [] OTHER -> {}
Next ==
  /\ l <= Len(Runs[run].ev)
  /\ f' \in Step(Runs[run].fam, f, Runs[run].ev[l])
  /\ l' = l + 1
  /\ run' = run
  /\ ("DIAG" \in DOMAIN IOEnv => PrintT(<<"AT", run, l, "prim">>))
  /\ (l = Len(Runs[run].ev) => PrintT(<<"ACC", run>>))
Spec == Init /\ [][Next]_<<run, l, f>>
\* the tables stay functions
Functional == \A x, y \in f.tab : x[1] = y[1] => (x[2] = y[2] \/ Runs[run].fam = "hmac")
=============================================================================
