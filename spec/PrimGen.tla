------------------------------ MODULE PrimGen -------------------------------
(***************************************************************************)
(* Generates operation sequences on the primitives' objects.  Two kinds:   *)
(* "programs" (interleavings of operations on hash / HMAC / AEAD / random  *)
(* objects, enumerated or sampled) and "families" (all parameters of a     *)
(* fixed scheme, e.g. every plaintext length and every flipped bit).       *)
(***************************************************************************)
EXTENDS Prim, Json, IOUtils

Profile == IOEnv.PROFILE
N       == atoi(IOEnv.N)
SIM     == IOEnv.SIM = "1"
THOROUGH == IOEnv.TIER = "thorough"

VARIABLES par, f, steps, n, fin
vars == <<par, f, steps, n, fin>>

One(S) == IF SIM THEN {RandomElement(S)} ELSE S
Emit(fam, st) == PrintT(<<"SCRIPT", ToJson([fam |-> fam, steps |-> st])>>)
Flat(ss) == LET R[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE R[i - 1] \o ss[i] IN R[Len(ss)]
SeqOf(a, b, Op(_)) == [i \in 1..(b - a + 1) |-> Op(a + i - 1)]

(****************************** P01: programs *****************************)
Hashes == {"sha256", "sha384"}
Sizes1 == IF SIM THEN {0, 1, 2, 7, 8, 31, 32, 33, 48, 55, 56, 57, 63, 64, 65, 100, 111, 112, 113, 119, 120, 127, 128, 129, 183, 184, 191, 192, 255, 256, 257, 1000, 4096, 16384}
          ELSE {0, 1, 55, 63, 64, 65, 127, 128}
\* every object continues its own pattern; a clone starts a new one
Piece(o, len) == LET c == f.objs[o].c
                     k == 2 + o
                     from == IF c # <<>> /\ c[Len(c)][1] = k THEN c[Len(c)][2] + c[Len(c)][3] ELSE 0
                 IN << <<k, from, len>> >>
HashOps ==
  \/ \E o \in One(1..Len(f.objs)), len \in One(Sizes1) :
       /\ steps' = Append(steps, [op |-> "upd", o |-> o, c |-> Piece(o, len)])
       /\ f' = HUpd(f, o, Piece(o, len))
  \/ /\ Len(f.objs) < 3
     /\ \E o \in One(1..Len(f.objs)) :
          /\ steps' = Append(steps, [op |-> "clone", o |-> o])
          /\ f' = HClone(f, o)
  \/ \E o \in One(1..Len(f.objs)) :
       /\ steps' = Append(steps, [op |-> "read", o |-> o, h |-> par.h, c |-> f.objs[o].c])
       /\ f' = f
HashEnd == Flat([o \in 1..Len(f.objs) |-> << [op |-> "read", o |-> o, h |-> par.h, c |-> f.objs[o].c],
                                             [op |-> "read", o |-> o, h |-> par.h, c |-> f.objs[o].c],
                                             [op |-> "one", h |-> par.h, c |-> f.objs[o].c] >>])
(* every length, read after every byte count, then continued and read again *)
LenScript(h, len, via) ==
  LET c0 == << <<3, 0, len>> >>
      c1 == << <<3, 0, len + 1>> >>
      c2 == << <<3, 0, len + 70>> >>
  IN << [op |-> "new", h |-> h, via |-> via],
        [op |-> "upd", o |-> 1, c |-> c0],
        [op |-> "read", o |-> 1, h |-> h, c |-> Norm(c0)],
        [op |-> "clone", o |-> 1],
        [op |-> "upd", o |-> 1, c |-> << <<3, len, 1>> >>],
        [op |-> "read", o |-> 1, h |-> h, c |-> c1],
        [op |-> "read", o |-> 2, h |-> h, c |-> Norm(c0)],
        [op |-> "upd", o |-> 1, c |-> << <<3, len + 1, 69>> >>],
        [op |-> "read", o |-> 1, h |-> h, c |-> c2],
        [op |-> "upd", o |-> 2, c |-> << <<0, 0, 64>> >>],
        [op |-> "read", o |-> 2, h |-> h, c |-> Norm(c0 \o << <<0, 0, 64>> >>)],
        [op |-> "one", h |-> h, c |-> Norm(c0)] >>

(* long inputs: the length in bits fills one more byte of the padding *)
HugeScript(h, len) ==
  << [op |-> "new", h |-> h, via |-> ""], [op |-> "upd", o |-> 1, c |-> << <<0, 0, len>> >>],
     [op |-> "read", o |-> 1, h |-> h, c |-> Norm(<< <<0, 0, len>> >>)] >>

(****************************** P05: programs *****************************)
KeyLens == {0, 1, 20, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 300}
HmacOps ==
  \/ /\ f.objs # <<>>
     /\ \E o \in One(1..Len(f.objs)), len \in One(Sizes1) :
          /\ steps' = Append(steps, [op |-> "hupd", o |-> o, c |-> Piece(o, len)])
          /\ f' = HUpd(f, o, Piece(o, len))
  \/ /\ f.objs # <<>>
     /\ \E o \in One(1..Len(f.objs)) :
          /\ steps' = Append(steps, [op |-> "hread", o |-> o, h |-> f.objs[o].h, c |-> f.objs[o].c])
          /\ f' = f
  \/ /\ Len(f.objs) < 3
     /\ \E h \in One(Hashes), kl \in One(KeyLens), k \in One({0, 1, 9}) :
          /\ steps' = Append(steps, [op |-> "hnew", h |-> h, k |-> << <<k, 0, kl>> >>])
          /\ f' = HNew(f, h, Norm(<< <<k, 0, kl>> >>))
HmacEnd == [o \in 1..Len(f.objs) |-> [op |-> "hread", o |-> o, h |-> f.objs[o].h, c |-> f.objs[o].c]]

HmacLenScript(h, kl, ml, k) ==
  << [op |-> "hnew", h |-> h, k |-> << <<k, 0, kl>> >>],
     [op |-> "hread", o |-> 1, h |-> h, c |-> <<>>],
     [op |-> "hupd", o |-> 1, c |-> << <<5, 0, ml>> >>],
     [op |-> "hread", o |-> 1, h |-> h, c |-> Norm(<< <<5, 0, ml>> >>)],
     [op |-> "extract", h |-> h, k |-> << <<k, 0, kl>> >>, c |-> << <<5, 0, ml>> >>] >>
ExpandScript(h, kl, il, ns) ==
  [i \in 1..Len(ns) |-> [op |-> "expand", h |-> h, k |-> << <<4, 0, kl>> >>, c |-> << <<6, 0, il>> >>, n |-> ns[i]]]
Labels == <<"key", "iv", "finished", "derived", "c hs traffic", "s ap traffic", "resumption", "x">>
LabelScript(h, cl, len) ==
  [i \in 1..Len(Labels) |-> [op |-> "label", h |-> h, k |-> << <<4, 0, HashLen(h)>> >>, label |-> Labels[i], c |-> << <<6, 0, cl>> >>, n |-> len]]

(******************************** P02 *************************************)
Suites == {4865, 4866, 4867}
KeyLen(s) == IF s = 4865 THEN 16 ELSE 32
SealOp(by, s, k, no, al, pl) ==
  [op |-> "seal", by |-> by, s |-> s, k |-> k, n |-> no, a |-> << <<7, 0, al>> >>, p |-> << <<8, 0, pl>> >>]
OpenOp(by, o, m, i) == [op |-> "open", by |-> by, o |-> o, mut |-> m, i |-> i]
AeadLenScript(s, k, no, al, pl) ==
  << SealOp("lib", s, k, no, al, pl), SealOp("ref", s, k, no, al, pl),
     OpenOp("lib", 1, "none", 0), OpenOp("lib", 2, "none", 0), OpenOp("ref", 1, "none", 0),
     OpenOp("lib", 1, "cttrunc", 1), OpenOp("lib", 1, "ctext", 1), OpenOp("lib", 1, "aadext", 0), OpenOp("lib", 1, "aadtrunc", 0),
     OpenOp("lib", 1, "tagzero", 0), OpenOp("lib", 1, "shift", 0), OpenOp("lib", 1, "cttrunc", 16), OpenOp("lib", 1, "ctext", 16),
     OpenOp("lib", 1, "ct", 8 * pl - 1), OpenOp("lib", 1, "ct", 0) >>
FlipScript(s, al, pl, m, bits) ==
  << SealOp("lib", s, 3, 4, al, pl), SealOp("ref", s, 3, 4, al, pl) >> \o [i \in 1..bits |-> OpenOp("lib", 1, m, i - 1)]
     \o << OpenOp("lib", 1, "none", 0) >>
TagScript(s, pl) ==
  << SealOp("lib", s, 3, 4, 5, pl) >> \o [i \in 1..16 |-> OpenOp("lib", 1, "tagtrunc", i - 1)]
     \o [i \in 1..16 |-> OpenOp("lib", 1, "tagext", i)]
\* programs: several messages, some with common key, nonce, associated data
Muts2 == {"none", "none", "tagof", "ctof", "aadof", "nonceof", "key", "nonce", "aad", "ct", "tag", "shift", "suite", "cttrunc", "ctext", "tagzero"}
Lens2 == {0, 1, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 192, 255, 256, 300, 1000}
AeadOps ==
  \/ /\ Len(f.objs) < 5
     /\ \E s \in One(Suites), k \in One({0, 1, 2, 3}), no \in One({0, 1, 2, 3}), al \in One({0, 1, 5, 13, 16, 17, 32, 40}), pl \in One(Lens2), by \in One({"lib", "ref"}) :
          /\ steps' = Append(steps, SealOp(by, s, k, no, al, pl))
          /\ f' = [f EXCEPT !.objs = Append(@, s)]
  \/ /\ f.objs # <<>>
     /\ \E o \in One(1..Len(f.objs)), m \in One(Muts2), by \in One({"lib", "lib", "ref"}), i \in One(1..3000) :
          /\ steps' = Append(steps, OpenOp(by, o, m, IF m \in {"tagof", "ctof", "aadof", "nonceof"} THEN 1 + (i % Len(f.objs)) ELSE i % (IF m \in {"cttrunc", "ctext"} THEN 40 ELSE 3000)))
          /\ f' = f
AeadEnd == [o \in 1..Len(f.objs) |-> OpenOp("lib", o, "none", 0)]

(******************************** P04 *************************************)
DhKinds == {"rand", "zero", "ones", "lead0", "lead00", "trail0", "low", "pub0", "pubz"}
Peers ==  <<[kind |-> "pub", i |-> 2], [kind |-> "pub", i |-> 1], [kind |-> "pub", i |-> 2, mod |-> "hi"], [kind |-> "pub", i |-> 1, mod |-> "hi"]>>
       \o [i \in 1..7 |-> [kind |-> "low", i |-> i - 1]]
       \o [i \in 1..7 |-> [kind |-> "low", i |-> i - 1, mod |-> "hi"]]
       \o [i \in 1..5 |-> [kind |-> "noncanon", i |-> i - 1]]
       \o [i \in 1..5 |-> [kind |-> "noncanon", i |-> i - 1, mod |-> "hi"]]
       \o [i \in 1..5 |-> [kind |-> "small", i |-> i - 1]]
       \o << [kind |-> "rand", i |-> 1], [kind |-> "rand", i |-> 2, mod |-> "hi"], [kind |-> "rand", i |-> 3, mod |-> "lead0"],
             [kind |-> "rand", i |-> 4, mod |-> "lead00"], [kind |-> "rand", i |-> 5, mod |-> "trail0"] >>
Lengths == [i \in 1..34 |-> [kind |-> "pub", i |-> 2, mod |-> "len", n |-> IF i <= 32 THEN i - 1 ELSE i + 30]]
DhScript(k1, k2, r) ==
  << [op |-> "key", kind |-> k1, i |-> 2 * r], [op |-> "key", kind |-> k2, i |-> 2 * r + 1] >>
  \o Flat([j \in 1..Len(Peers) |-> << [op |-> "dh", o |-> 1, peer |-> Peers[j], via |-> "raw", h |-> "sha256"],
                                     [op |-> "dh", o |-> 1, peer |-> Peers[j], via |-> "hs", h |-> IF j % 2 = 0 THEN "sha256" ELSE "sha384"],
                                     [op |-> "dh", o |-> 2, peer |-> Peers[j], via |-> "hs", h |-> IF j % 2 = 1 THEN "sha256" ELSE "sha384"] >>])
LenDhScript(k) ==
  << [op |-> "key", kind |-> k, i |-> 1], [op |-> "key", kind |-> "rand", i |-> 2] >>
  \o [j \in 1..Len(Lengths) |-> [op |-> "dh", o |-> 1, peer |-> Lengths[j], via |-> "hs", h |-> "sha256"]]

(******************************** P03 *************************************)
SigKinds == {"rand", "one", "two", "nm1", "short", "x0", "y0"}
Digests  == {"rand", "zero", "ones", "n", "n1", "one", "short"}
Signers  == {"lib", "ref", "shortr", "shorts", "rd"}
Muts3 == <<"negs", "negr", "r0", "s0", "rn", "sn", "rpn", "spn", "rmn", "smn", "both0", "bothn", "one", "swap",
           "rbit", "sbit", "zbit", "zplusn", "z0", "qneg", "qx", "qy", "qbit", "qxbit", "q0", "qy0", "qp", "qswap", "qg">>
\* a digest of zero cannot distinguish a key from its negative
NoQneg(z, m) == ~(z \in {"zero", "n"} /\ m \in {"qneg", "qg"}) /\ ~(m = "z0")
SigScript(k, z, by, r) ==
  << [op |-> "key", kind |-> k], [op |-> "key", kind |-> "rand"],
     [op |-> "sign", by |-> by, o |-> 1, z |-> z, zi |-> r],
     [op |-> "verify", o |-> 1, g |-> 1, mut |-> "none", der |-> TRUE],
     [op |-> "verify", o |-> 1, g |-> 1, mut |-> "none", der |-> FALSE],
     [op |-> "verify", o |-> 2, g |-> 1, mut |-> "none", der |-> FALSE] >>
  \o Flat([j \in 1..Len(Muts3) |-> IF NoQneg(z, Muts3[j])
        THEN << [op |-> "verify", o |-> 1, g |-> 1, mut |-> Muts3[j], i |-> (r * 37 + j * 11) % 256, der |-> j % 2 = 0] >> ELSE <<>>])
\* signatures from many keys and nonces, read back and verified
ManyScript(r) ==
  << [op |-> "key", kind |-> "rand"] >> \o
  Flat([j \in 1..20 |-> << [op |-> "sign", by |-> IF j % 4 = 0 THEN "ref" ELSE "lib", o |-> 1, z |-> IF j % 7 = 0 THEN "short" ELSE "rand", zi |-> r * 20 + j],
                          [op |-> "verify", o |-> 1, g |-> j, mut |-> "none", der |-> TRUE],
                          [op |-> "verify", o |-> 1, g |-> 1 + ((j * 3) % j), mut |-> "zbit", i |-> j * 12, der |-> FALSE] >>])
BitScript(w, part) ==
  << [op |-> "key", kind |-> "rand"], [op |-> "sign", by |-> "lib", o |-> 1, z |-> "rand", zi |-> 1] >> \o
  [j \in 1..64 |-> [op |-> "verify", o |-> 1, g |-> 1, mut |-> w, i |-> part * 64 + j - 1, der |-> FALSE]]
WrapScript(r) ==
  << [op |-> "wrap", z |-> "rand", zi |-> 2 * r], [op |-> "inf", z |-> "rand", zi |-> 2 * r + 1], [op |-> "wrap", z |-> "short", zi |-> r],
     [op |-> "verify", o |-> 1, g |-> 1, mut |-> "none", der |-> TRUE],
     [op |-> "verify", o |-> 2, g |-> 2, mut |-> "none", der |-> TRUE],
     [op |-> "verify", o |-> 3, g |-> 3, mut |-> "none", der |-> FALSE],
     [op |-> "verify", o |-> 1, g |-> 3, mut |-> "none", der |-> FALSE],
     [op |-> "verify", o |-> 1, g |-> 1, mut |-> "negs", der |-> FALSE],
     [op |-> "verify", o |-> 1, g |-> 1, mut |-> "rpn", der |-> FALSE],
     [op |-> "verify", o |-> 1, g |-> 1, mut |-> "qneg", der |-> FALSE],
     [op |-> "verify", o |-> 2, g |-> 2, mut |-> "negs", der |-> FALSE],
     [op |-> "verify", o |-> 2, g |-> 2, mut |-> "qneg", der |-> FALSE] >>
NearScript(part) == [j \in 1..64 |-> [op |-> "near", i |-> part * 64 + j - 1]]
\* r is something else that comes up in the computation
Related == {"y", "negy", "px", "nx", "g", "gy", "q", "qy", "diff", "gq", "gq1", "dbl", "swapu", "x2", "xp1", "xm1", "inv", "rev", "lo", "hi",
            "words", "not", "keyx", "keyy", "basex", "u1", "u2"}
RelScript(w) == [j \in 1..4 |-> [op |-> "rel", what |-> w]]
OffScript(w) == [j \in 1..8 |-> [op |-> "off", what |-> w]]
EncKinds == {"high", "low", "ones", "pow", "rand"}
EncLens  == {1, 2, 15, 16, 30, 31, 32}
EncScript(k1, k2) ==
  Flat([l1 \in 1..32 |-> Flat([l2 \in 1..32 |-> IF l1 \in EncLens \/ l2 \in EncLens
     THEN << [op |-> "enc", r |-> [len |-> l1, kind |-> k1, i |-> l1], s |-> [len |-> l2, kind |-> k2, i |-> l2]] >> ELSE <<>>])])
\* encodings: all single deviations of a genuine one
V(len, first) == [i \in 1..len |-> IF i = 1 THEN first ELSE (i * 29 + 3) % 256]
BaseSig(l1, l2, b) == EncSig(V(l1, b), V(l2, b))
DecScript(l1, l2, b) ==
  LET d == BaseSig(l1, l2, b)
      L == Len(d)
      Set(i, v) == [d EXCEPT ![i] = v]
      heads == {1, 2, 3, 4, 5, 6, 4 + d[4], 5 + d[4], 6 + d[4], 7 + d[4], 8 + d[4], L}
      HS == [i \in 1..L |-> IF i \in heads
               THEN [j \in 1..12 |-> [op |-> "dec", b |-> Set(i, CASE j = 1 -> 0 [] j = 2 -> 255 [] j = 3 -> 128 [] j = 4 -> 129 [] j = 5 -> (d[i] + 1) % 256
                       [] j = 6 -> (d[i] + 255) % 256 [] j = 7 -> 2 [] j = 8 -> 48 [] j = 9 -> 127 [] j = 10 -> 130 [] j = 11 -> 3 [] OTHER -> (d[i] + 128) % 256)]]
               ELSE << [op |-> "dec", b |-> Set(i, (d[i] + 1) % 256)] >>]
      TR == [i \in 0..(L - 1) |-> [op |-> "dec", b |-> SubSeq(d, 1, i)]]
      body == SubSeq(d, 3, L)
      re(x) == <<48, Len(x)>> \o x
      extra == << d \o <<0>>, d \o <<2, 1, 1>>, re(body \o <<0>>), re(body \o <<2, 1, 5>>), re(body \o <<5, 0>>),
                  <<48, 129, Len(body)>> \o body, <<48, 130, 0, Len(body)>> \o body, <<48, 128>> \o body \o <<0, 0>>,
                  re(<<2, d[4] + 1, 0>> \o SubSeq(d, 5, L)), re(<<2, 129, d[4]>> \o SubSeq(d, 5, L)),
                  re(SubSeq(d, 3, 4 + d[4])), re(<<>>), re(<<2, 0, 2, 0>>), re(<<2, 0>> \o SubSeq(d, 5 + d[4], L)), <<48>>, <<>>,
                  re(<<48, d[4]>> \o SubSeq(d, 5, L)), re(<<2, 1, 0, 2, 1, 0>>), <<49>> \o SubSeq(d, 2, L) >>
  IN <<[op |-> "dec", b |-> d]>> \o Flat(HS) \o [i \in 1..L |-> TR[i - 1]] \o [i \in 1..Len(extra) |-> [op |-> "dec", b |-> extra[i]]]

(******************************** N01 *************************************)
RKinds == {"urandom", "simple", "u32"}
RSizes == {0, 1, 2, 7, 8, 16, 31, 32, 33, 48, 64, 65, 99, 100, 101, 199, 200, 201, 256, 1000, 4097}
RBet(k) == IF k = "u32" THEN {<<0, 1>>, <<0, 2>>, <<1, 32>>, <<5, 6>>, <<0, 256>>, <<10, 1000>>, <<100, 65536>>}
           ELSE {<<1, 32>>, <<0, 1>>, <<1, 2>>, <<0, 32>>, <<31, 32>>, <<8, 9>>, <<16, 33>>, <<1, 40>>, <<32, 48>>}
RngOps ==
  \/ /\ Len(f.objs) < 4
     /\ \E k \in One(RKinds), s \in One({0, 1, 2, 10, 12345, 1000000007}) :
          /\ steps' = Append(steps, [op |-> "new", kind |-> k, seed |-> s])
          /\ f' = [f EXCEPT !.objs = Append(@, [kind |-> k, seed |-> s])]
  \/ /\ f.objs # <<>>
     /\ \E o \in One(1..Len(f.objs)), z \in One(RSizes) :
          /\ steps' = Append(steps, [op |-> "bytes", o |-> o, n |-> z])
          /\ f' = f
  \/ /\ f.objs # <<>>
     /\ \E o \in One(1..Len(f.objs)) : \E b \in One(RBet(f.objs[o].kind)) :
          /\ steps' = Append(steps, [op |-> "between", o |-> o, a |-> b[1], b |-> b[2]])
          /\ f' = f
RSizeScript(k, lo, hi) ==
  << [op |-> "new", kind |-> k, seed |-> 7], [op |-> "new", kind |-> k, seed |-> 7] >>
  \o Flat([i \in 1..(hi - lo + 1) |-> << [op |-> "bytes", o |-> 1, n |-> lo + i - 1], [op |-> "bytes", o |-> 2, n |-> lo + i - 1] >>])
RManyScript(k, z, c, w) ==
  << [op |-> "new", kind |-> k, seed |-> 3], [op |-> "many", o |-> 1, n |-> z, cnt |-> c, what |-> w] >>

(******************************** families ********************************)
Fam == CASE Profile \in {"P01", "P01L", "P01H"} -> "hash"
         [] Profile \in {"P05", "P05L", "P05E"} -> "hmac"
         [] Profile \in {"P02", "P02L", "P02F", "P02X"} -> "aead"
         [] Profile \in {"P04"} -> "dh"
         [] Profile \in {"P03", "P03M", "P03B", "P03W", "P03N", "P03E", "P03D"} -> "sig"
         [] Profile \in {"N01", "N01L"} -> "rng"

Params ==
  CASE Profile = "P01L" -> [h : Hashes, len : 0..N, via : {"", "suite"}]
    [] Profile = "P01H" -> [h : Hashes, len : IF THOROUGH THEN {8191, 8192, 65536, 1048576, 2097152, 16777216, 33554432, 268435455, 536870911, 536870912, 1073741823} ELSE {8192, 65536, 2097151, 2097152, 33554432, 536870912}]
    [] Profile = "P05L" -> [h : Hashes, kl : IF THOROUGH THEN 0..270 ELSE KeyLens \cup (60..70) \cup (124..134), ml : IF THOROUGH THEN {0, 1, 55, 63, 64, 65, 111, 119, 120, 127, 128, 129, 200} ELSE {0, 1, 55, 64, 119, 128, 200}, k : {0, 1, 9}]
    [] Profile = "P05E" -> [h : Hashes, kl : {0, 1, 32, 48, 64, 65, 128, 129, 200}, il : {0, 1, 10, 51, 64, 200, 300}]
    [] Profile = "P02L" -> [s : Suites, pl : 0..N, al : {0, 5}, k : {3}, no : {4}]
                           \cup [s : Suites, pl : {0, 1, 15, 16, 17, 63, 64, 65, 128}, al : (0..40) \cup {63, 64, 65, 255, 256}, k : {0, 1}, no : {0, 1}]
    [] Profile = "P02X" -> [s : Suites, pl : {511, 512, 513, 1023, 1024, 4095, 4096, 8192, 16320, 16367, 16368, 16383, 16384, 16385, 16401}, al : {5}]
    [] Profile = "P02F" -> [s : Suites, pl : {0, 1, 16, 33, 64, 70}, al : {0, 5, 16, 20}, m : {"tag", "ct", "aad", "nonce", "key"}]
    [] Profile = "P04"  -> [k1 : DhKinds, k2 : DhKinds, r : 0..N]
    [] Profile = "P03"  -> [k : SigKinds, z : Digests, by : Signers, r : 0..N]
    [] Profile = "P03M" -> [r : 0..N]
    [] Profile = "P03B" -> [m : {"rbit", "sbit", "zbit", "qbit", "qxbit"}, part : 0..3]
    [] Profile = "P03W" -> [r : 0..N]
    [] Profile = "P03N" -> [part : 0..3, w : {""}] \cup [part : {0}, w : {"y", "x", "y0", "x0", "y1", "small", "both"}] \cup [part : {1}, w : Related]
    [] Profile = "P03E" -> [k1 : EncKinds, k2 : EncKinds]
    [] Profile = "P03D" -> [l1 : {1, 2, 31, 32}, l2 : {1, 16, 31, 32}, b : {1, 127, 128, 255}]
    [] Profile = "N01L" -> [k : RKinds, part : 0..N, z : {0}] \cup [k : RKinds, part : {-1}, z : {1, 2, 8, 32, 48, 100, 101, 150, 300}]
    [] OTHER -> {[h |-> h] : h \in IF Profile = "P01" THEN Hashes ELSE {"any"}}

Family(p) ==
  CASE Profile = "P01L" -> LenScript(p.h, p.len, p.via)
    [] Profile = "P01H" -> HugeScript(p.h, p.len)
    [] Profile = "P05L" -> HmacLenScript(p.h, p.kl, p.ml, p.k)
    [] Profile = "P05E" ->
         LET hl == HashLen(p.h)
             around == [i \in 1..(4 * hl + 4) |-> i - 1]
             ns == IF p.kl \in {32, 48} THEN around \o <<255 * hl - 1, 255 * hl, 255 * hl + 1, 255 * hl + hl, 65535>>
                   ELSE <<0, 1, hl - 1, hl, hl + 1, 2 * hl, 5 * hl, 254 * hl, 255 * hl, 255 * hl + 1, 65535>>
         IN ExpandScript(p.h, p.kl, p.il, ns) \o (IF p.kl = 32 THEN LabelScript(p.h, IF p.il > 255 THEN 48 ELSE p.il, 32) \o LabelScript(p.h, 0, 12) ELSE <<>>)
    [] Profile = "P02L" -> AeadLenScript(p.s, p.k, p.no, p.al, p.pl)
    [] Profile = "P02X" -> AeadLenScript(p.s, 5, 6, p.al, p.pl)
    [] Profile = "P02F" -> IF p.m = "tag" THEN FlipScript(p.s, p.al, p.pl, "tag", 128) \o [i \in 1..32 |-> OpenOp("lib", 1, IF i <= 16 THEN "tagtrunc" ELSE "tagext", IF i <= 16 THEN i - 1 ELSE i - 16)]
                           ELSE FlipScript(p.s, p.al, p.pl, p.m, CASE p.m = "ct" -> 8 * p.pl [] p.m = "aad" -> 8 * p.al [] p.m = "nonce" -> 96 [] OTHER -> 8 * KeyLen(p.s))
    [] Profile = "P04"  -> DhScript(p.k1, p.k2, p.r) \o (IF p.k1 = p.k2 THEN << [op |-> "key", kind |-> "rand", i |-> 90 + p.r] >>
                             \o [j \in 1..Len(Lengths) |-> [op |-> "dh", o |-> 1, peer |-> Lengths[j], via |-> "hs", h |-> "sha256"]] ELSE <<>>)
    [] Profile = "P03"  -> SigScript(p.k, p.z, p.by, p.r)
    [] Profile = "P03M" -> ManyScript(p.r)
    [] Profile = "P03B" -> BitScript(p.m, p.part)
    [] Profile = "P03W" -> WrapScript(p.r)
    [] Profile = "P03N" -> IF p.w = "" THEN NearScript(p.part) ELSE IF p.part = 1 THEN RelScript(p.w) ELSE OffScript(p.w)
    [] Profile = "P03E" -> EncScript(p.k1, p.k2)
    [] Profile = "P03D" -> DecScript(p.l1, p.l2, p.b)
    [] Profile = "N01L" -> IF p.part >= 0 THEN RSizeScript(p.k, 30 * p.part, 30 * p.part + 29)
                           ELSE RManyScript(p.k, p.z, IF p.z = 1 THEN 600 ELSE 200, "bytes") \o
                                (IF p.k = "urandom" /\ p.z \in {8, 32, 48} THEN << [op |-> "many", o |-> 1, n |-> p.z, cnt |-> 200, what |-> "between"] >> ELSE <<>>)

IsProgram == Profile \in {"P01", "P05", "P02", "N01"}

Init == /\ par \in Params
        /\ n = 0 /\ fin = FALSE
        /\ f = IF Profile = "P01" THEN HNew(F0, par.h, <<>>) ELSE F0
        /\ steps = IF Profile = "P01" THEN << [op |-> "new", h |-> par.h, via |-> ""] >> ELSE <<>>
Op == CASE Profile = "P01" -> HashOps
        [] Profile = "P05" -> HmacOps
        [] Profile = "P02" -> AeadOps
        [] Profile = "N01" -> RngOps
        [] OTHER -> FALSE
Tail2 == CASE Profile = "P01" -> HashEnd
           [] Profile = "P05" -> HmacEnd
           [] Profile = "P02" -> AeadEnd
           [] OTHER -> <<>>
Next ==
  /\ ~fin
  /\ IF IsProgram
     THEN IF n < N THEN Op /\ n' = n + 1 /\ UNCHANGED <<par, fin>>
          ELSE fin' = TRUE /\ Emit(Fam, steps \o Tail2) /\ UNCHANGED <<par, f, steps, n>>
     ELSE fin' = TRUE /\ Emit(Fam, Family(par)) /\ UNCHANGED <<par, f, steps, n>>
Spec == Init /\ [][Next]_vars

\* contents never lose or invent bytes
Sane == \A o \in 1..Len(f.objs) : Fam \in {"hash", "hmac"} => CLen(f.objs[o].c) >= 0 /\ Norm(f.objs[o].c) = f.objs[o].c
\* the specification's own encoder and decoder agree
CodecOk == Profile = "P03D" => LET d == DecSig(BaseSig(par.l1, par.l2, par.b))
                               IN d.ok /\ d.strict /\ d.r = V(par.l1, par.b) /\ d.s = V(par.l2, par.b)
=============================================================================
