------------------------------ MODULE TlsTrace ------------------------------
(***************************************************************************)
(* Checks recorded traces of the real library against Tls13: a run is      *)
(* accepted iff some behaviour of the specification explains every event.  *)
(* Views (cfg/VIEW environment) select which observations a property is    *)
(* about; the machine itself is always the same.                           *)
(***************************************************************************)
EXTENDS Tls13, Json, IOUtils

Runs  == ndJsonDeserialize(IOEnv.TRACE)
Views == Range(ndJsonDeserialize(IOEnv.VIEWS)[1].views)
V(x)  == x \in Views

VARIABLES run, l, s, w   \* run number, next event, machine, record counters

Evs == Runs[run].ev
Cfg == [Runs[run].cfg EXCEPT !.role = Runs[run].role]

(* record level bookkeeping of one connection *)
W0 == [lvl |-> 0, seq |-> <<0, 0>>, jump |-> FALSE, alerted |-> FALSE, n |-> 0]
LvlNo(x) == CASE x = "plain" -> 0 [] x = "hs" -> 1 [] x = "ap" -> 2 [] OTHER -> 9

Init ==
  /\ run \in 1..Len(Runs)
  /\ l = 1
  /\ s = Init0(Cfg)
  /\ w = W0

ErrCode(e) == IF e.err = "BrokenPipe" THEN 254 ELSE e.code

(* ---- events -------------------------------------------------------- *)
EvConn(e) == s' = Init0(Cfg) /\ w' = W0
EvIn(e)   == s' \in React(Cfg, s, e) /\ w' = w

(* record discipline: levels never go back, sequence numbers are consecutive
   from zero, sizes and types are right, nothing follows an alert *)
RecOk(e) ==
  LET n == LvlNo(e.lvl) IN
  /\ e.ok
  /\ n # 9
  /\ ~w.alerted
  /\ (n = 0) => (w.lvl = 0 \/ e.it = "ccs")
  /\ (n = 0) => e.it \in {"hs", "ccs", "alert"}
  /\ (n > 0) => /\ n >= w.lvl
                /\ e.o = 23
                /\ (e.seq = w.seq[n] \/ (e.seq = 1000000 /\ "jump" \in DOMAIN Runs[run].cfg /\ ~w.jump))
                /\ e.it \in (IF n = 1 THEN {"hs", "alert"} ELSE {"data", "alert"})
EvRec(e) ==
  LET n == LvlNo(e.lvl) IN
  /\ s' = s
  /\ V("rec") /\ s.pc # "ANY" => RecOk(e)
  /\ w' = [w EXCEPT !.lvl = IF n \in 0..2 /\ n > w.lvl THEN n ELSE w.lvl,
                    !.seq = IF n \in {1, 2} THEN [w.seq EXCEPT ![n] = e.seq + 1] ELSE w.seq,
                    !.jump = w.jump \/ e.seq >= 1000000,
                    !.alerted = w.alerted \/ e.it = "alert",
                    !.n = w.n + 1]

MsgOk(e, x) ==
  /\ x.t = "msg" /\ x.m = e.m /\ x.lvl = e.lvl
  /\ e.ok
  /\ e.m = "sh" => e.suite \in x.suites /\ e.grp = 29 /\ e.sid /\ e.ver
EvMsg(e) ==
  IF s.pc = "ANY" THEN s' = s /\ w' = w
  ELSE /\ w' = w
       /\ IF V("msg") \/ V("code")
          THEN /\ s.out # <<>>
               /\ MsgOk(e, Head(s.out))
               /\ s' = [s EXCEPT !.out = Tail(@)]
          ELSE /\ s' = s
               /\ V("sh") /\ e.m = "sh" =>
                    \E i \in 1..Len(s.out) : MsgOk(e, s.out[i])
               /\ V("ch") /\ e.m = "ch" => e.ok
               (* a client sends its Finished only with the session *)
               /\ V("nofin") /\ e.m = "fin" /\ ~IsServer(Cfg) => s.pc = "READY" /\ e.ok
EvAlert(e) ==
  IF s.pc = "ANY" THEN s' = s /\ w' = w
  ELSE IF ~V("code") THEN s' = s /\ w' = w
  ELSE IF s.pc = "READY" /\ s.rerr # {}
       THEN (* reporting a failed stream is welcome, but not required *)
            s' = s /\ w' = w
  ELSE /\ s.out # <<>>
       /\ LET x == Head(s.out) IN
            /\ x.t = "alert" /\ x.lvl = e.lvl /\ e.ok
            /\ e.code \in x.codes /\ e.level = 2
            /\ s' = [s EXCEPT !.out = Tail(@), !.alert = e.code]
       /\ w' = w

EvDat(e) ==
  /\ w' = w
  /\ s' = [s EXCEPT !.dpos = e.off + e.len]
  /\ V("dat") /\ s.pc # "ANY" => e.ok /\ e.off = s.dpos

EvVfn(e) ==
  /\ w' = w
  /\ IF V("vfn") /\ s.pc # "ANY"
     THEN s.vfn # <<>> /\ Head(s.vfn) = e.cn /\ s' = [s EXCEPT !.vfn = Tail(@)]
     ELSE s' = s

(* the result of accept()/connect() *)
EvResult(e) ==
  LET f == AtEnd(Cfg, s) IN
  /\ w' = w
  /\ V("live") => e.res \in {"ok", "err"}
  /\ IF f.pc = "ANY" THEN s' = f
     ELSE /\ V("est") => (e.res = "ok" <=> f.pc = "READY")
          /\ V("vfn") => f.vfn = <<>>
          /\ V("code") /\ f.pc = "DEAD" => /\ e.res = "err"
                                           /\ ErrCode(e) \in f.codes
                                           /\ f.alert # -1 => f.alert = e.code
          /\ s' = f

EvRead(e) ==
  /\ w' = w
  /\ V("live") => e.res \in {"ok", "err"}
  /\ IF s.pc = "ANY" THEN s' = s
     ELSE IF e.res = "ok"
     THEN /\ V("rd") => /\ s.pc = "READY"
                        /\ ~s.rfail \/ (e.len = 0 /\ (e.n = 0 \/ "all" \in DOMAIN e))   \* (an empty buffer is never an error)
                        /\ e.ok
                        /\ e.off = s.rpos
                        /\ s.rpos + e.len <= s.avail
                        /\ e.len > 0 \/ e.n = 0 \/ "all" \in DOMAIN e \/ 0 \in s.rerr
                        /\ "all" \notin DOMAIN e => e.len <= e.n
          /\ s' = [s EXCEPT !.rpos = @ + e.len]
     ELSE /\ V("rd") => s.rpos = s.avail     \* everything before it was delivered
          /\ V("rcode") => ErrCode(e) \in s.rerr
          /\ s' = [s EXCEPT !.rfail = TRUE]
EvWrite(e) ==
  /\ w' = w
  /\ V("live") => e.res \in {"ok", "err"}
  /\ IF s.pc = "ANY" THEN s' = s
     ELSE s' = [s EXCEPT !.wpos = IF e.res = "ok" THEN @ + e.n ELSE @]

(* all that had to be seen has been seen *)
EvKlog(e) ==
  /\ s' = s /\ w' = w
  /\ (V("klog") /\ s.pc # "ANY") =>
        IF Get(Cfg, "logging", FALSE)
        THEN /\ Range(e.v) = s.klog
             /\ Len(e.v) = Cardinality(s.klog)
             /\ e.extra = 0 /\ e.stray = 0
        ELSE e.v = <<>> /\ e.extra = 0 /\ e.stray = 0
EvFin(e) ==
  /\ s' = s /\ w' = w
  /\ s.pc # "ANY" =>
       /\ V("code") => s.out = <<>>
       /\ V("msg") => \A i \in 1..Len(s.out) : s.out[i].t # "msg"
       (* (a connection that is closed with unread records may lose what
          was written last) *)
       /\ V("dat") => /\ s.dpos <= s.wpos
                      /\ s.rerr \subseteq CLOSED => s.dpos = s.wpos
       /\ V("rdall") => s.rpos = s.avail
EvEnd(e) == s' = s /\ w' = w /\ (V("live") => e.res \notin {"panic", "hang"})

Step ==
  /\ l <= Len(Evs)
  /\ LET e == Evs[l] IN
     CASE e.t = "conn"  -> EvConn(e)
       [] e.t = "in"    -> EvIn(e)
       [] e.t = "rec"   -> EvRec(e)
       [] e.t = "msg"   -> EvMsg(e)
       [] e.t = "alert" -> EvAlert(e)
       [] e.t = "dat"   -> EvDat(e)
       [] e.t = "vfn"   -> EvVfn(e)
       [] e.t = "hsres" -> EvResult(e)
       [] e.t = "eut"   -> IF e.op = "r" THEN EvRead(e) ELSE EvWrite(e)
       [] e.t = "klog"  -> EvKlog(e)
       [] e.t = "fin"   -> EvFin(e)
       [] e.t = "end"   -> EvEnd(e)
  /\ l' = l + 1
  /\ run' = run
  /\ IF "DIAG" \in DOMAIN IOEnv THEN PrintT(<<"AT", run, l, s.pc>>) ELSE TRUE
  /\ IF l = Len(Evs) THEN PrintT(<<"ACC", run>>) ELSE TRUE

Next == Step
Spec == Init /\ [][Next]_<<run, l, s, w>>

(* the machine's own safety, evaluated along every recorded behaviour *)
Safe == /\ IsServer(Cfg) => SafeServer(Cfg, s)
        /\ ~IsServer(Cfg) => SafeClient(Cfg, s)
=============================================================================
