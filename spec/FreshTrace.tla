----------------------------- MODULE FreshTrace -----------------------------
(* Judge: everything the library should have drawn afresh, in the order in  *)
(* which it was seen on the wire, came from an ideal source.                *)
EXTENDS Fresh, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l, s
Init == run \in 1..Len(Runs) /\ l = 1 /\ s = Source0
Next ==
  /\ l <= Len(Runs[run].ev)
  /\ s' \in LET e == Runs[run].ev[l] IN IF e.t = "vals" THEN Draw(s, e.v) ELSE IF Close(s) THEN {s} ELSE {}
  /\ l' = l + 1
  /\ run' = run
  /\ ("DIAG" \in DOMAIN IOEnv => PrintT(<<"AT", run, l, "source">>))
  /\ (l = Len(Runs[run].ev) => PrintT(<<"ACC", run>>))
Spec == Init /\ [][Next]_<<run, l, s>>
\* fingerprints are taken of this: the contents follow from the position
View == <<run, l>>
=============================================================================
