------------------------------ MODULE DerTrace ------------------------------
(* Judge: certificates mean what their encoding says (DerStep).             *)
EXTENDS Der, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, f
Init == run \in 1..Len(Runs) /\ l = 1 /\ f = F0
Next ==
  /\ l <= Len(Runs[run].ev)
  /\ f' \in DerStep(f, Runs[run].ev[l])
  /\ l' = l + 1
  /\ run' = run
  /\ ("DIAG" \in DOMAIN IOEnv => PrintT(<<"AT", run, l, "der">>))
  /\ (l = Len(Runs[run].ev) => PrintT(<<"ACC", run>>))
Spec == Init /\ [][Next]_<<run, l, f>>
=============================================================================
