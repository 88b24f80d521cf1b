------------------------------ MODULE TlsMulti ------------------------------
(***************************************************************************)
(* Histories of connections of one server (or of one client                *)
(* configuration): N connections one after the other, each an honest       *)
(* script with at most K edits, edits with material of the connection      *)
(* before among them.  The machine of every connection starts afresh: what *)
(* happened earlier must not matter.                                       *)
(***************************************************************************)
EXTENDS TlsGen

N == atoi(IOEnv.N)
VARIABLES conns, first
mvars == <<cfg, pos, ss, hist, dev, done, conns, first>>

(* what differs between the connections is the peer: its suite, its
   certificate, and whether it asks for one *)
Peers(c) ==
  IF c.role = "server"
  THEN Add({[c EXCEPT !.offer = <<su>>, !.suite = su] : su \in SuiteSet}, "pcert",
           IF c.auth THEN {"c_ok", "c_big", "c_deny"} ELSE {""})
  ELSE {[c EXCEPT !.suite = su, !.cr = r] : su \in SuiteSet, r \in BOOLEAN}
SuiteOk(c, p) == c.role = "server" \/ p.suite \in SuiteSet

MInit == Init /\ conns = <<>> /\ first = cfg
Walk  == /\ Follow \/ Vary \/ Insert \/ Skip \/ Twice \/ Swap \/ End
         /\ UNCHANGED <<conns, first>>
Again == /\ Over /\ ~done /\ Len(conns) + 1 < N
         /\ conns' = Append(conns, [steps |-> hist, want |-> {x.pc : x \in ss}])
         /\ \E p \in {RandomElement({x \in Peers(first) : pos > 0})} :
              cfg' = p /\ ss' = {Init0(p)}
         /\ pos' = 1 /\ hist' = <<>> /\ dev' = 0 /\ UNCHANGED <<done, first>>
MFinish == /\ Over /\ ~done /\ Len(conns) + 1 = N
           /\ done' = TRUE
           /\ PrintT(<<"SCRIPT", ToJson([role |-> cfg.role, cfg |-> first, par |-> FALSE,
                  conns |-> Append(conns, [steps |-> hist, want |-> {x.pc : x \in ss}])])>>)
           /\ UNCHANGED <<cfg, pos, ss, hist, dev, conns, first>>
MNext == Walk \/ Again \/ MFinish
MSpec == MInit /\ [][MNext]_mvars
=============================================================================
