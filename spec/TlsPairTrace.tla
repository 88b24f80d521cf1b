---------------------------- MODULE TlsPairTrace ----------------------------
(***************************************************************************)
(* Judges recorded runs of the library against itself.  Each side's log is *)
(* consumed in its own order; a read is explained once the other side's    *)
(* writes explain it.                                                      *)
(***************************************************************************)
EXTENDS PairBase

Runs == ndJsonDeserialize(IOEnv.TRACE)
Sides == {"s", "c"}
Other(x) == IF x = "s" THEN "c" ELSE "s"

VARIABLES run, pos, st, wr, rd, code, cn
vars == <<run, pos, st, wr, rd, code, cn>>

Evs == Runs[run].ev
C   == Runs[run].cfg
Logs == [x \in Sides |-> SelectSeq(Evs, LAMBDA e : PGet(e, "w", "") = x /\ e.t # "recs")]
Post == SelectSeq(Evs, LAMBDA e : e.t \in {"keys", "recs"})
O == Outcome(C)
Codes(x) == IF x = "s" THEN O.srv ELSE O.cli

Init == /\ run \in 1..Len(Runs)
        /\ pos = [x \in Sides |-> 1] /\ st = [x \in Sides |-> "hs"]
        /\ wr = [x \in Sides |-> 0] /\ rd = [x \in Sides |-> 0]
        /\ code = [x \in Sides |-> -1] /\ cn = <<>>

Agree(x, k) == code[Other(x)] \in {-1, k}
Result(x, e) ==
  /\ st[x] = "hs"
  /\ IF Codes(x) = {} THEN e.res = "ok" /\ st' = [st EXCEPT ![x] = "ok"] /\ UNCHANGED code
     ELSE /\ e.res = "err" /\ e.code \in Codes(x) /\ Agree(x, e.code)
          /\ st' = [st EXCEPT ![x] = "failed"] /\ code' = [code EXCEPT ![x] = e.code]
  /\ UNCHANGED <<wr, rd, cn>>
Wrote(x, e) == /\ st[x] = "ok" /\ e.res = "ok" /\ e.off = wr[x]
               /\ wr' = [wr EXCEPT ![x] = @ + e.n] /\ UNCHANGED <<st, rd, code, cn>>
Read(x, e) ==
  /\ st[x] = "ok"
  /\ IF e.res = "ok"
     THEN /\ e.ok /\ e.off = rd[x] /\ rd[x] + e.len <= wr[Other(x)]
          /\ PGet(e, "all", FALSE) \/ e.len <= e.n
          /\ rd' = [rd EXCEPT ![x] = @ + e.len] /\ UNCHANGED <<st, wr, code, cn>>
     ELSE (* the other side refused our credentials after we were done *)
          /\ x = "c" /\ O.read # {} /\ e.code \in O.read /\ Agree(x, e.code)
          /\ code' = [code EXCEPT ![x] = e.code] /\ UNCHANGED <<st, wr, rd, cn>>
Asked(x, e) == /\ x = "s" /\ cn' = Append(cn, e.cn) /\ UNCHANGED <<st, wr, rd, code>>
Ev(x) ==
  /\ pos[x] \in 1..Len(Logs[x])
  /\ LET e == Logs[x][pos[x]] IN
       CASE e.t = "hsres" -> Result(x, e)
         [] e.t = "eut"   -> IF e.op = "r" THEN Read(x, e) ELSE Wrote(x, e)
         [] e.t = "vfn"   -> Asked(x, e)
  /\ pos' = [pos EXCEPT ![x] = @ + 1] /\ run' = run
(* (no event disables one of the other side: the order does not matter) *)
Step == Ev("s") \/ (~ENABLED Ev("s") /\ Ev("c"))

PostOk(e) ==
  IF e.t = "keys" THEN Completes(C) => e.same /\ e.n = 4 /\ e.rnd
  ELSE Completes(C) => /\ e.bad = 0 /\ e.big = 0 /\ e.rest = 0
                       /\ e.hs > 0
End == /\ \A x \in Sides : pos[x] = Len(Logs[x]) + 1
       /\ \A x \in Sides : st[x] = (IF Codes(x) = {} THEN "ok" ELSE "failed")
       /\ Completes(C) => /\ \A x \in Sides : rd[x] = wr[Other(x)]
                          /\ wr["s"] = Runs[run].sw /\ wr["c"] = Runs[run].cw
                          /\ cn = Calls(C)
       /\ O.read # {} => code["c"] = code["s"] /\ code["c"] # -1
       /\ \A i \in 1..Len(Post) : PostOk(Post[i])
       /\ Len(Post) = 3
       /\ pos' = [x \in Sides |-> 0] /\ PrintT(<<"ACC", run>>)
       /\ UNCHANGED <<run, st, wr, rd, code, cn>>
Next == /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", run, pos["s"] + pos["c"], "x">>) ELSE TRUE
        /\ (Step \/ End)
Spec == Init /\ [][Next]_vars
(* nothing is read that was not written *)
Prefix == \A x \in Sides : rd[x] <= wr[Other(x)]
=============================================================================
