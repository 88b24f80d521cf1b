------------------------------ MODULE CalTrace ------------------------------
(* Judge: certificates are accepted exactly within their period, ill-formed *)
(* times never.  "res": the validity of the parsed certificate, "hello":    *)
(* what the parser of the Certificate message did with it.                  *)
EXTENDS Calendar, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES run, l
Init == run \in 1..Len(Runs) /\ l = 1
Ok(e) == /\ e.t = "valid"
         /\ LET must == MustAccept(e.nb, e.na, [d |-> e.d, s |-> e.s])
            IN (e.res = "accept") = must /\ (e.hello = "accept") = must
Next ==
  /\ l <= Len(Runs[run].ev)
  /\ Ok(Runs[run].ev[l])
  /\ l' = l + 1
  /\ run' = run
  /\ ("DIAG" \in DOMAIN IOEnv => PrintT(<<"AT", run, l, "cal">>))
  /\ (l = Len(Runs[run].ev) => PrintT(<<"ACC", run>>))
Spec == Init /\ [][Next]_<<run, l>>
=============================================================================
