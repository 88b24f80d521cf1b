------------------------------ MODULE TlsPair -------------------------------
(***************************************************************************)
(* Schedules of two applications over one connection, the library on both  *)
(* ends: interleaved writes and reads of all sizes in both directions.     *)
(* The network is two byte counters; a read is only scheduled when         *)
(* something is there for it, so every schedule terminates.                *)
(***************************************************************************)
EXTENDS PairBase

N == atoi(IOEnv.N)
VARIABLES cfg, ops, wr, lo, cnt, done
vars == <<cfg, ops, wr, lo, cnt, done>>
Sides == {"s", "c"}
Other(x) == IF x = "s" THEN "c" ELSE "s"
One(S) == {RandomElement(S)}

Names == {"", "a.example", "b.example"}
Init ==
  /\ cfg \in [auth : BOOLEAN, verify : {"none", "yes", "no", "cn"},
              ccert : {"", "c_ok", "c_big", "c_small", "c_noext", "c_deny", "c_expired", "c_samename", "c_self"},
              sni : Names, ssni : Names, cert : {"s_ok", "s_big", "s_small", "s_expired"},
              prng : {"urandom", "simple"}, cut : {0, 7, 100, 1500, 4096}]
  /\ (cfg.verify # "none" => cfg.auth)
  /\ (N > 10 => Completes(cfg))
  /\ ops = [x \in Sides |-> <<>>] /\ wr = [x \in Sides |-> 0]
  /\ lo = [x \in Sides |-> 0]      \* bytes a side may at most have read
  /\ cnt = 0 /\ done = FALSE

WSizes == IF cnt % 3 = 0 THEN {0, 1, 1000, 4096, 16383, 16384, 16385, 20000, 32768, 40000} ELSE {0, 1, 2, 15, 16, 17, 63, 64, 65, 100, 255, 256, 500}
Bufs == {1, 2, 16, 100, 1023, 4096, 16384, 40000}
Add(x, o) == ops' = [ops EXCEPT ![x] = Append(@, o)]
Write(x) == \E n \in One({k \in WSizes : wr[x] + k <= (IF cfg.cut \in {7, 100} THEN 3000 ELSE 140000)}) :
              /\ Add(x, [op |-> "w", n |-> n]) /\ wr' = [wr EXCEPT ![x] = @ + n] /\ UNCHANGED lo
Read(x)  == \E n \in One(Bufs) :
              /\ lo[x] < wr[Other(x)]
              /\ Add(x, [op |-> "r", n |-> n])
              /\ lo' = [lo EXCEPT ![x] = IF @ + n > wr[Other(x)] THEN wr[Other(x)] ELSE @ + n]
              /\ UNCHANGED wr
All(x)   == \E n \in One({b \in Bufs : wr[Other(x)] < 500 * b}) :
              /\ Add(x, [op |-> "rall", n |-> n, until |-> wr[Other(x)]])
              /\ lo' = [lo EXCEPT ![x] = wr[Other(x)]] /\ UNCHANGED wr
Act == /\ ~done /\ cnt < N /\ Completes(cfg)
       /\ cnt' = cnt + 1
       /\ \E x \in One(Sides) : \E k \in One(1..5) :
            IF k = 1 /\ lo[x] < wr[Other(x)] THEN Read(x) ELSE IF k = 2 THEN All(x) ELSE Write(x)
       /\ UNCHANGED <<cfg, done>>
Ending(x) == IF Completes(cfg) THEN <<[op |-> "rall", n |-> 16384, until |-> wr[Other(x)]]>>
           ELSE <<[op |-> "rerr", n |-> 100, max |-> 1]>>
Finish == /\ ~done /\ (cnt = N \/ ~Completes(cfg))
          /\ done' = TRUE
          /\ PrintT(<<"SCRIPT", ToJson([role |-> "pair", cfg |-> cfg, cut |-> cfg.cut,
                sops |-> ops["s"] \o Ending("s"), cops |-> ops["c"] \o Ending("c"),
                sw |-> wr["s"], cw |-> wr["c"]])>>)
          /\ UNCHANGED <<cfg, ops, wr, lo, cnt>>
Next == Act \/ Finish
Spec == Init /\ [][Next]_vars
(* nobody ever waits for bytes that were not sent before *)
NoDeadlock == \A x \in Sides : lo[x] <= wr[Other(x)]
=============================================================================
