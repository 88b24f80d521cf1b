------------------------------- MODULE TlsApp -------------------------------
(***************************************************************************)
(* The data phase: after an honest handshake the peer sends N records of   *)
(* all sizes and paddings, genuine or manipulated, while the application   *)
(* on our side writes and reads pieces of all sizes.  TLC samples          *)
(* interleavings (or enumerates them, N small) while the machine of Tls13  *)
(* runs along, and prints them for replay against the real library.        *)
(***************************************************************************)
EXTENDS TlsGen

N == atoi(IOEnv.N)

VARIABLES ops, wr, rd, cnt, att
avars == <<cfg, pos, ss, hist, dev, done, ops, wr, rd, cnt, att>>

(* boundaries: hash and cipher blocks, record size *)
Small  == {0, 1, 2, 13, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 127, 128, 129, 191, 192, 255, 256, 257, 511, 512, 1000}
Large  == {1023, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16319, 16320, 16352, 16367, 16368, 16382, 16383, 16384}
Huge   == {16385, 16400, 20000, 32767, 32768, 32769, 40000, 49152, 65536}
Pads   == {0, 1, 14, 15, 16, 40, 255, 5000}
Bufs   == {1, 2, 7, 16, 100, 1023, 4096, 16383, 16384, 16385, 70000}

Start(c) == LET q == HonestSeq(c) IN SubSeq(q, 1, Len(q) - 1)
AppCfgs ==
  CASE Profile = "R02" -> Seg(Few, {"whole", "coal"})
    [] Profile = "R03" -> Seg(Few, {"whole", "coal", "cut7", "rand"})
    [] Profile = "R04" -> Add(Seg(Few, {"coal", "byte", "cut1", "cut7", "cut16", "hdr", "rand", "sig"}), "pack", {"none", "join", "frag5", "joinfrag", "ccs"})
    [] Profile = "R01J" -> Add(Seg(Few, {"whole"}), "jump", {TRUE})
    [] OTHER -> Seg(Few, {"whole"})

AInit == /\ cfg \in AppCfgs
         /\ pos = 0 /\ dev = 0 /\ done = FALSE
         /\ hist = Start(cfg)
         /\ ss = LET F[i \in 0..Len(Start(cfg))] ==
                       IF i = 0 THEN {Init0(cfg)} ELSE Play(F[i - 1], Start(cfg)[i])
                 IN F[Len(Start(cfg))]
         /\ ops = <<>> /\ wr = 0 /\ rd = 0 /\ cnt = 0 /\ att = 0

Sends(e, n) == /\ hist' = Append(hist, e) /\ ss' = Play(ss, e)
               /\ rd' = rd + n /\ UNCHANGED <<ops, wr>>
Calls(o, n) == /\ ops' = Append(ops, o) /\ wr' = wr + n /\ UNCHANGED <<hist, ss, rd>>

Sizes == IF Profile = "R04" THEN {0, 1, 5, 17, 100, 300} ELSE IF cnt % 3 = 0 THEN Small \cup Large ELSE Small
(* one value, drawn once *)
One(S) == {RandomElement(S)}
PData == \E n \in One(Sizes), y \in One(0..2) :
         \E p \in One({x \in Pads : n + x <= 16384 /\ (x > 1000 => n < 64)}) :
           Sends(IF y > 0 THEN [k |-> "data", n |-> n] ELSE [k |-> "data", n |-> n, pad |-> p], n)

(* several empty records in a row *)
PEmpty == \E k \in One(2..14) :
            /\ hist' = hist \o [i \in 1..k |-> [k |-> "data", n |-> 0]]
            /\ ss' = Play(ss, [k |-> "data", n |-> 0])     \* (the same again and again)
            /\ UNCHANGED <<ops, wr, rd>>

(* manipulations of the record stream *)
AttackMenu ==
       {[k |-> "data", n |-> n, e |-> x] : n \in {1, 9, 64, 300}, x \in (EncVariants \ {"ap"}) \cup {"tagzero", "splice", "first"}}
  \cup {[k |-> "data", n |-> n, drop |-> TRUE] : n \in {0, 1, 50}}
  \cup {[k |-> "data", n |-> n] : n \in {16385, 16390}}
  \cup {[k |-> "data", n |-> 16380, pad |-> 5]}
  \cup {[k |-> "swap", n |-> n] : n \in {1, 30, 64}}
  \cup {[k |-> "inner", ty |-> t, n |-> n] : t \in {0, 1, 20, 24, 255}, n \in {0, 3}}
  \cup {[k |-> "rec", ty |-> t, n |-> n] : t \in {0, 20, 22, 23, 24, 255}, n \in {0, 1, 2, 40, 300, 16384, 16640, 16641}}
  \cup {[k |-> "alert", code |-> c] : c \in {0, 1, 10, 20, 21, 22, 42, 46, 50, 60, 70, 80, 90, 100, 116, 120, 250, 253, 255}}
  \cup {[k |-> "alert", code |-> c, e |-> x] : c \in {0, 40}, x \in {"plain", "badtag", "hs", "replay"}}
  \cup {[k |-> "ccs"]}
  \cup {[k |-> "hs", m |-> m] : m \in {"fin", "ku", "nst", "cert", "cr"}}
  \cup {[k |-> "hs", m |-> "fin", e |-> x] : x \in {"hs", "plain"}}
  \cup {[k |-> "cut", n |-> n] : n \in {1, 4, 5, 6, 20, 21, 60}}
(* (a record sealed for the place of a withheld one is not a forgery) *)
Withheld == \E i \in 1..Len(hist) : "drop" \in DOMAIN hist[i]
PAttack == /\ Profile \in {"R02"} /\ att < K /\ ~Withheld
           /\ att' = att + 1
           /\ \E e \in One(AttackMenu) : Sends(e, 0)

WSizes == IF Profile = "R04" THEN {0, 5, 100} ELSE IF cnt % 4 = 0 THEN Small \cup Large \cup Huge ELSE Small
EWrite == \E n \in One({x \in WSizes : wr + x <= 140000}) : Calls([op |-> "w", n |-> n], n)
Jumped == Profile # "R01J" \/ att > 0    \* (nothing sent after the jump is read before it)
ERead  == Jumped /\ \E n \in One(Bufs \cup {0}) : Calls([op |-> "r", n |-> n], 0)
EAll   == rd > 0 /\ \E n \in One({x \in Bufs : rd < 300 * x}) : Calls([op |-> "rall", n |-> n, until |-> rd], 0)

(* continue at a sequence number near a boundary (both directions) *)
Jumps == {"u8", "u16", "u24", "u31", "u32", "u40", "u48", "u56", "i64"}
PJump == /\ Profile = "R01J" /\ att = 0 /\ wr > 0
         /\ hist[Len(hist)].k = "data" /\ hist[Len(hist)].n > 0
         /\ att' = 1
         /\ \E j \in One(Jumps) :
              /\ hist' = Append(hist, [k |-> "jump", to |-> j])
              /\ ops' = ops \o <<[op |-> "rall", n |-> 4096, until |-> rd], [op |-> "seq", to |-> j]>>
         /\ UNCHANGED <<ss, wr, rd>>

Ended == hist[Len(hist)].k \in {"close", "cut"}
Act == /\ ~done /\ cnt < N /\ ~Ended
       /\ cnt' = cnt + 1
       /\ \E c \in One(1..8) :
          IF Profile = "R02" /\ att < K /\ ~Withheld /\ c <= 2 THEN PAttack
          ELSE IF ENABLED PJump /\ c <= 2 THEN PJump
          ELSE /\ att' = att
               /\ CASE c <= 4 -> IF cnt % 7 = 3 THEN PEmpty ELSE PData [] c = 5 /\ Jumped -> ERead [] c = 6 /\ rd > 0 -> EAll [] OTHER -> EWrite
       /\ UNCHANGED <<cfg, pos, dev, done>>
AFinish == /\ ~done /\ (cnt = N \/ Ended)
           /\ done' = TRUE
           /\ PrintT(<<"SCRIPT", ToJson([role |-> cfg.role, cfg |-> cfg, steps |-> hist,
                         ops |-> ops \o <<[op |-> "rerr", n |-> 20000, max |-> 3]>>,
                         want |-> {x.pc : x \in ss}])>>)
           /\ UNCHANGED <<cfg, pos, ss, hist, dev, ops, wr, rd, cnt, att>>
ANext == Act \/ AFinish
ASpec == AInit /\ [][ANext]_avars

(* what is delivered is what the peer wrote before the first manipulation *)
Delivered == \A x \in ss : x.pc # "ANY" => x.avail <= rd
Undisturbed == att = 0 \/ Profile # "R02" => \A x \in ss : x.pc = "READY" /\ x.avail = rd /\ x.rerr = {}
=============================================================================
