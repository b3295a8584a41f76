------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The two stream formats of librsync at byte level: what a signature of   *)
(* some data is, what a delta stream means, when either is acceptable.     *)
(* Results are the library's public result codes.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Hashes, Words, TLC

DONE == 0    BLOCKED == 1   IOERR == 100   ENDED == 103
BADMAGIC == 104   CORRUPT == 106   PARAM == 108

DeltaMagic == <<114, 115, 2, 54>>                         \* 'r' 's' 02 36
MagicByte(weak, strong) == IF weak = "roll" THEN (IF strong = "md4" THEN 54 ELSE 55)
                                            ELSE (IF strong = "md4" THEN 70 ELSE 71)
KnownSigMagic(m) == m[1] = 114 /\ m[2] = 115 /\ m[3] = 1 /\ m[4] \in {54, 55, 70, 71}
WeakOf(m)   == IF m[4] \in {54, 55} THEN "roll" ELSE "rk"
StrongOf(m) == IF m[4] \in {54, 70} THEN "md4" ELSE "blake2"
MaxStrong(m) == IF StrongOf(m) = "md4" THEN 16 ELSE 32

Weak(kind, s)   == BytesBE32(IF kind = "roll" THEN Rollsum(s) ELSE RabinKarp(s))
Strong(kind, s) == IF kind = "md4" THEN MD4(s) ELSE Blake2b(s)

Min2(a, b) == IF a < b THEN a ELSE b
NBlocks(n, bl) == (n + bl - 1) \div bl
Block(s, bl, k) == SubSeq(s, (k-1)*bl + 1, Min2(k*bl, Len(s)))      \* k from 1
BlockSum(m, sl, blk) == Weak(WeakOf(m), blk) \o SubSeq(Strong(StrongOf(m), blk), 1, sl)
SigHeader(m, bl, sl) == m \o BytesBE32(W32Of(bl)) \o <<0, 0, 0, sl>>
\* The signature of s: header and the sums of its blocks in order.
Signature(s, m, bl, sl) ==
  FoldLeft(LAMBDA acc, k : acc \o BlockSum(m, sl, Block(s, bl, k)), SigHeader(m, bl, sl),
           [k \in 1..NBlocks(Len(s), bl) |-> k])

---------------------------------------------------------------------------
\* Loading: the set of results that are right for stream s, and its content.
LoadResults(s) ==
  LET n == Len(s)
      badMagic == n >= 4 /\ ~KnownSigMagic(SubSeq(s, 1, 4))
      bl == IF n >= 8 THEN SubSeq(s, 5, 8) ELSE <<0,0,0,1>>
      badBl == n >= 8 /\ (bl[1] >= 128 \/ bl = <<0,0,0,0>>)
      sl == IF n >= 12 THEN SubSeq(s, 9, 12) ELSE <<0,0,0,1>>
      slBig == sl[1] # 0 \/ sl[2] # 0 \/ sl[3] # 0
      badSl == n >= 12 /\ (slBig \/ sl[4] = 0 \/ sl[4] > (IF badMagic \/ n < 4 THEN 32 ELSE MaxStrong(SubSeq(s,1,4))))
      errs == (IF badMagic THEN {BADMAGIC} ELSE {}) \cup (IF badBl THEN {CORRUPT, PARAM} ELSE {})
              \cup (IF badSl THEN {CORRUPT, PARAM} ELSE {})
      short == n < 12 \/ (errs = {} /\ (n - 12) % (4 + sl[4]) # 0)
  IN IF short THEN errs \cup {ENDED} ELSE IF errs # {} THEN errs ELSE {DONE}
\* entries of an acceptable signature stream
SigMagicOf(s) == SubSeq(s, 1, 4)
SigBlockLen(s) == ((s[5]*256 + s[6])*256 + s[7])*256 + s[8]           \* < 2^31
SigStrongLen(s) == s[12]
SigCount(s) == (Len(s) - 12) \div (4 + SigStrongLen(s))
SigEntry(s, k) == SubSeq(s, 13 + (k-1)*(4 + SigStrongLen(s)), 12 + k*(4 + SigStrongLen(s)))
SigEntries(s) == [k \in 1..SigCount(s) |-> SigEntry(s, k)]

---------------------------------------------------------------------------
\* Numbers in delta commands: 1, 2, 4 or 8 big-endian bytes.
\*   v is exact if the number is below 2^31, otherwise big is TRUE;
\*   neg says the 64-bit value has its sign bit set.
Num(b) ==
  LET n == Len(b)
      hi == \E i \in 1..n : b[i] # 0 /\ (i <= n - 4 \/ (i = n - 3 /\ b[i] >= 128))
      low == FoldLeft(LAMBDA a, x : a*256 + x, 0, SubSeq(b, IF n > 4 THEN n - 3 ELSE 1, n))
  IN [neg |-> n = 8 /\ b[1] >= 128, big |-> hi, v |-> IF hi THEN 0 ELSE low]
Zero(x) == ~x.big /\ x.v = 0
\* least width class that can hold n (0 <= n < 2^31)
Width(n) == IF n < 256 THEN 1 ELSE IF n < 65536 THEN 2 ELSE 4
BE(n, w) == IF w = 1 THEN <<n>> ELSE IF w = 2 THEN <<n \div 256, n % 256>>
            ELSE IF w = 4 THEN BytesBE32(W32Of(n)) ELSE <<0,0,0,0>> \o BytesBE32(W32Of(n))
WCode(w) == CASE w = 1 -> 0 [] w = 2 -> 1 [] w = 4 -> 2 [] w = 8 -> 3
WOf(c) == CASE c = 0 -> 1 [] c = 1 -> 2 [] c = 2 -> 4 [] c = 3 -> 8

\* One command at position i (1-based) of stream d:
\*   kind "need" (more bytes required), "end", "lit", "copy", "bad"
\*   hdr = header length, len/pos = Num
CmdAt(d, i) ==
  LET n == Len(d) - i + 1 IN
  IF n < 1 THEN [kind |-> "need"]
  ELSE LET op == d[i] IN
  IF op = 0 THEN [kind |-> "end", hdr |-> 1]
  ELSE IF op <= 64 THEN [kind |-> "lit", hdr |-> 1, len |-> Num(<<op>>), imm |-> TRUE]
  ELSE IF op <= 68 THEN LET w == WOf(op - 65) IN
       IF n < 1 + w THEN [kind |-> "need"]
       ELSE [kind |-> "lit", hdr |-> 1 + w, len |-> Num(SubSeq(d, i+1, i+w)), imm |-> FALSE, w |-> w]
  ELSE IF op <= 84 THEN LET wp == WOf((op - 69) \div 4)  wl == WOf((op - 69) % 4) IN
       IF n < 1 + wp + wl THEN [kind |-> "need"]
       ELSE [kind |-> "copy", hdr |-> 1 + wp + wl, pos |-> Num(SubSeq(d, i+1, i+wp)), posb |-> SubSeq(d, i+1, i+wp),
             len |-> Num(SubSeq(d, i+1+wp, i+wp+wl)), lenb |-> SubSeq(d, i+1+wp, i+wp+wl), wp |-> wp, wl |-> wl]
  ELSE [kind |-> "bad", hdr |-> 1]

(***************************************************************************)
(* Meaning of a delta prefix d against a basis b: what has been output and *)
(* in which state the interpreter is ("need" = everything available was    *)
(* processed and more input is required).                                  *)
(***************************************************************************)
RECURSIVE PatchFrom(_, _, _, _)
PatchFrom(d, b, i, out) ==
  LET c == CmdAt(d, i) IN
  CASE c.kind = "need" -> [st |-> "need", out |-> out, at |-> i]
    [] c.kind = "end"  -> [st |-> "done", out |-> out, at |-> i + 1]
    [] c.kind = "bad"  -> [st |-> "corrupt", out |-> out, at |-> i]
    [] c.kind = "lit"  ->
         IF Zero(c.len) \/ c.len.neg THEN [st |-> "corrupt", out |-> out, at |-> i]
         ELSE LET have == Len(d) - (i + c.hdr) + 1 IN
              IF c.len.big \/ have < c.len.v
              THEN [st |-> "need", out |-> out \o SubSeq(d, i + c.hdr, Len(d)), at |-> i]
              ELSE PatchFrom(d, b, i + c.hdr + c.len.v, out \o SubSeq(d, i + c.hdr, i + c.hdr + c.len.v - 1))
    [] c.kind = "copy" ->
         IF Zero(c.len) \/ c.len.neg \/ c.pos.neg THEN [st |-> "corrupt", out |-> out, at |-> i]
         ELSE IF c.pos.big \/ c.pos.v >= Len(b) THEN [st |-> "basisend", out |-> out, at |-> i]
         ELSE IF c.len.big \/ c.len.v > Len(b) - c.pos.v
              THEN [st |-> "basisend", out |-> out \o SubSeq(b, c.pos.v + 1, Len(b)), at |-> i]
              ELSE PatchFrom(d, b, i + c.hdr, out \o SubSeq(b, c.pos.v + 1, c.pos.v + c.len.v))
PatchRun(d, b) ==
  IF Len(d) < 4 THEN [st |-> "need", out |-> <<>>, at |-> 1]
  ELSE IF SubSeq(d, 1, 4) # DeltaMagic THEN [st |-> "badmagic", out |-> <<>>, at |-> 1]
  ELSE PatchFrom(d, b, 5, <<>>)
\* final results right for a complete stream whose run state is st
PatchResults(st) == CASE st = "done" -> {DONE} [] st = "need" -> {ENDED} [] st = "corrupt" -> {CORRUPT}
                      [] st = "badmagic" -> {BADMAGIC} [] st = "basisend" -> {ENDED, IOERR}

---------------------------------------------------------------------------
\* All commands of a (well-formed) delta as a sequence, or "bad" somewhere.
RECURSIVE CmdsFrom(_, _, _)
CmdsFrom(d, i, acc) ==
  LET c == CmdAt(d, i) IN
  CASE c.kind \in {"need", "bad"} -> [ok |-> FALSE, cmds |-> acc, at |-> i]
    [] c.kind = "end" -> [ok |-> i = Len(d), cmds |-> acc, at |-> i]
    [] c.kind = "lit" -> IF Zero(c.len) \/ c.len.big \/ Len(d) - (i + c.hdr) + 1 < c.len.v
                         THEN [ok |-> FALSE, cmds |-> acc, at |-> i]
                         ELSE CmdsFrom(d, i + c.hdr + c.len.v, Append(acc, c @@ [at |-> i]))
    [] c.kind = "copy" -> CmdsFrom(d, i + c.hdr, Append(acc, c @@ [at |-> i]))
DeltaCmds(d) == IF Len(d) < 4 \/ SubSeq(d, 1, 4) # DeltaMagic THEN [ok |-> FALSE, cmds |-> <<>>, at |-> 1]
                ELSE CmdsFrom(d, 5, <<>>)

MaxLiteral == 65533
\* Shortest encoding of each command
LitCanonical(c) == /\ c.len.v <= MaxLiteral
                   /\ IF c.len.v <= 64 THEN c.imm ELSE ~c.imm /\ c.w = Width(c.len.v)
\* minimal width of a big-endian byte string: no smaller class could hold it
MinWidth(b) == LET w == Len(b) IN
  \/ w = 1
  \/ w = 2 /\ b[1] # 0
  \/ w = 4 /\ (b[1] # 0 \/ b[2] # 0)
  \/ w = 8 /\ \E k \in 1..4 : b[k] # 0
CopyCanonical(c) == MinWidth(c.posb) /\ MinWidth(c.lenb)
EncLit(n) == IF n <= 64 THEN <<n>> ELSE <<65 + WCode(Width(n))>> \o BE(n, Width(n))
EncCopy(p, n) == <<69 + 4*WCode(Width(p)) + WCode(Width(n))>> \o BE(p, Width(p)) \o BE(n, Width(n))
=============================================================================
