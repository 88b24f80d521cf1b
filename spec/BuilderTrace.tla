---------------------------- MODULE BuilderTrace ----------------------------
(* Judge: recorded builder calls and the configurations they gave.          *)
EXTENDS Builder, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, b
Init == run \in 1..Len(Runs) /\ l = 1 /\ b = NoBuilder
Next ==
  /\ l <= Len(Runs[run].ev)
  /\ b' \in BuilderStep(b, Runs[run].ev[l])
  /\ l' = l + 1
  /\ run' = run
  /\ ("DIAG" \in DOMAIN IOEnv => PrintT(<<"AT", run, l, "builder">>))
  /\ (l = Len(Runs[run].ev) => PrintT(<<"ACC", run>>))
Spec == Init /\ [][Next]_<<run, l, b>>
=============================================================================
