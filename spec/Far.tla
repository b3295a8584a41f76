-------------------------------- MODULE Far --------------------------------
(***************************************************************************)
(* Files and streams beyond what 32 bits can count.  Positions and lengths *)
(* are W64; data are pieces <<id, offset, length>> of named strings, id 0  *)
(* being zeros; a file is the concatenation of its pieces.                 *)
(***************************************************************************)
EXTENDS DeltaRef

W(b8) == << b8[1]*256 + b8[2], b8[3]*256 + b8[4], b8[5]*256 + b8[6], b8[7]*256 + b8[8] >>   \* 8 bytes
WN(n) == << 0, 0, n \div M16, n % M16 >>                                                    \* small number
WBytes(w) == << w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256, w[3] \div 256, w[3] % 256, w[4] \div 256, w[4] % 256 >>
Pad8(b) == [i \in 1..8 |-> IF i <= 8 - Len(b) THEN 0 ELSE b[i - (8 - Len(b))]]
Lt(a, b) == \/ a[1] < b[1]
            \/ a[1] = b[1] /\ \/ a[2] < b[2]
                              \/ a[2] = b[2] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ a[4] < b[4]))
Le(a, b) == a = b \/ Lt(a, b)
WMin(a, b) == IF Lt(b, a) THEN b ELSE a
WMax(a, b) == IF Lt(a, b) THEN b ELSE a
\* a - b for b <= a
WSub(a, b) == Add64(Add64(a, Not64(b)), <<0, 0, 0, 1>>)
WInt(w) == w[3] * M16 + w[4]                    \* for values below 2^31
Prod(a, b) == \* a, b < 2^31
  LET A == W32Of(a) B == W32Of(b)
      ll == Mul16(A[2], B[2])  hl == Mul16(A[1], B[2])  lh == Mul16(A[2], B[1])  hh == Mul16(A[1], B[1])
  IN Add64(Add64(<<0, 0, ll[1], ll[2]>>, <<0, hl[1], hl[2], 0>>), Add64(<<0, lh[1], lh[2], 0>>, <<hh[1], hh[2], 0, 0>>))
\* shortest of 1, 2, 4, 8 bytes
Shrink(b) == IF \A i \in 1..7 : b[i] = 0 THEN SubSeq(b, 8, 8)
             ELSE IF \A i \in 1..6 : b[i] = 0 THEN SubSeq(b, 7, 8)
             ELSE IF \A i \in 1..4 : b[i] = 0 THEN SubSeq(b, 5, 8) ELSE b
FarCopy(p, n) == LET pb == Shrink(WBytes(p))  lb == Shrink(WBytes(n)) IN <<69 + 4*WCode(Len(pb)) + WCode(Len(lb))>> \o pb \o lb

FNorm(ps) == FoldLeft(LAMBDA a, p :
    IF p[3] = Zero64 THEN a
    ELSE IF a # <<>> /\ LET q == a[Len(a)] IN q[1] = p[1] /\ (p[1] = 0 \/ Add64(q[2], q[3]) = p[2])
    THEN [a EXCEPT ![Len(a)] = <<@[1], @[2], Add64(@[3], p[3])>>]
    ELSE Append(a, IF p[1] = 0 THEN <<0, Zero64, p[3]>> ELSE p), <<>>, ps)
FLen(ps) == FoldLeft(LAMBDA a, p : Add64(a, p[3]), Zero64, ps)
\* bytes from..from+n-1 of ps
FCut(ps, from, n) ==
  LET to == Add64(from, n) IN
  FNorm(FoldLeft(LAMBDA a, p :
      LET end == Add64(a.at, p[3])  lo == WMax(from, a.at)  hi == WMin(to, end) IN
      [at |-> end,
       out |-> IF Lt(lo, hi) THEN Append(a.out, <<p[1], Add64(p[2], WSub(lo, a.at)), WSub(hi, lo)>>) ELSE a.out],
    [at |-> Zero64, out |-> <<>>], ps).out)
\* pieces as they come in records: <<id, 8 bytes, 8 bytes>>
FPieces(rs) == [k \in DOMAIN rs |-> <<rs[k][1], W(rs[k][2]), W(rs[k][3])>>]
\* the bytes of (short) pieces, strs[id] the named strings
FExpand(ps, strs) == FoldLeft(LAMBDA a, p :
    a \o (IF p[1] = 0 THEN [i \in 1..WInt(p[3]) |-> 0] ELSE SubSeq(strs[p[1]], WInt(p[2]) + 1, WInt(p[2]) + WInt(p[3]))), <<>>, ps)

\* what a list of command headers makes of a basis; literal i carries lits[i]
FMeaning(hdrs, lits, basis) ==
  FoldLeft(LAMBDA a, h :
     LET c == CmdAt(h, 1) IN
     IF c.hdr # Len(h) THEN [a EXCEPT !.ok = FALSE]
     ELSE IF c.kind = "lit" THEN
          [a EXCEPT !.out = @ \o lits[a.l], !.l = @ + 1, !.ok = @ /\ FLen(lits[a.l]) = W(Pad8(SubSeq(h, IF c.imm THEN 1 ELSE 2, Len(h))))]
     ELSE IF c.kind = "copy" THEN
          LET p == W(Pad8(c.posb))  n == W(Pad8(c.lenb)) IN
          [a EXCEPT !.out = @ \o FCut(basis, p, n), !.ok = @ /\ n # Zero64 /\ Le(Add64(p, n), FLen(basis))]
     ELSE [a EXCEPT !.ok = FALSE],
   [ok |-> TRUE, l |-> 1, out |-> <<>>], hdrs)

\* --- {t:"vpatch", hdrs, lits, basis, exp, res}: exp is what the driver compared the output with
JVPatch(r) ==
  LET m == FMeaning(r.hdrs, [k \in DOMAIN r.lits |-> FPieces(r.lits[k])], FPieces(r.basis)) IN
  IF r.res # DONE THEN "patch with huge commands failed"
  ELSE IF m.ok /\ FNorm(m.out) = FNorm(FPieces(r.exp)) THEN "ok" ELSE "commands do not describe this output"

\* --- {t:"vrt", basis, strs, new, delta}: the delta rebuilds new from a huge basis
JVRt(r) ==
  LET p == DeltaCmds(r.delta)  b == FPieces(r.basis)
      out == FoldLeft(LAMBDA a, c :
               a \o (IF c.kind = "lit" THEN SubSeq(r.delta, c.at + c.hdr, c.at + c.hdr + c.len.v - 1)
                     ELSE FExpand(FCut(b, W(Pad8(c.posb)), W(Pad8(c.lenb))), r.strs)), <<>>, p.cmds)
  IN IF ~p.ok THEN "delta is not a well-formed stream"
     ELSE IF out = r.new THEN "ok" ELSE "delta against a huge basis does not rebuild the new data"

\* --- a delta of n zeros made in one call, as runs of equal commands <<header, count>>:
\*     {t:"win", n, runs, bl (0: no signature)}; the driver compared the literal bytes with the input
WTimes(w, k) == IF k <= 4 THEN FoldLeft(LAMBDA a, i : Add64(a, w), Zero64, [i \in 1..k |-> i]) ELSE Prod(WInt(w), k)
WinLen(r) == FoldLeft(LAMBDA a, x : LET c == CmdAt(x[1], 1) IN
     Add64(a, WTimes(IF c.kind = "copy" THEN W(Pad8(c.lenb)) ELSE W(Pad8(SubSeq(x[1], IF c.imm THEN 1 ELSE 2, Len(x[1])))), x[2])), Zero64, r.runs)
WinForm(h) == LET c == CmdAt(h, 1) IN
   /\ c.hdr = Len(h)
   /\ IF c.kind = "copy" THEN CopyCanonical(c)
      ELSE c.kind = "lit" /\ (c.imm \/ (MinWidth(SubSeq(h, 2, Len(h))) /\ (c.len.big \/ c.len.v > 64)))
JWin(r) ==
  IF ~\A k \in DOMAIN r.runs : WinForm(r.runs[k][1]) THEN "command not in shortest form"
  ELSE IF WinLen(r) # W(r.n) THEN "delta describes the wrong amount of data"
  ELSE IF r.bl = 0 THEN (IF \A k \in DOMAIN r.runs : CmdAt(r.runs[k][1], 1).kind = "lit" THEN "ok" ELSE "copy without a basis")
  \* one block of zeros in the signature: it is copied as often as it fits
  ELSE LET rest == WInt(WSub(W(r.n), Prod(r.bl, r.runs[1][2]))) IN
       IF r.runs[1][1] # EncCopy(0, r.bl) THEN "block not copied"
       ELSE IF rest >= r.bl THEN "block not copied every time"
       ELSE IF (rest = 0 /\ Len(r.runs) = 1) \/ (Len(r.runs) = 2 /\ r.runs[2] = <<EncLit(rest), 1>>) THEN "ok" ELSE "wrong end of the delta"

\* --- {t:"far", bl, ops, out}: ops <<"c", block, bytes>> or <<"l", bytes>> in order; copies that meet are one
FarOps(r) == FoldLeft(LAMBDA a, o :
    IF o[1] = "l" THEN Append(a, [k |-> "l", d |-> o[2]])
    ELSE LET p == Prod(o[2], r.bl) IN
         IF a # <<>> /\ LET q == a[Len(a)] IN q.k = "c" /\ Add64(q.p, q.n) = p
         THEN [a EXCEPT ![Len(a)].n = Add64(@, WN(o[3]))]
         ELSE Append(a, [k |-> "c", p |-> p, n |-> WN(o[3])]), <<>>, r.ops)
JFar(r) ==
  LET e == FoldLeft(LAMBDA a, o : a \o (IF o.k = "l" THEN EncLit(Len(o.d)) \o o.d ELSE FarCopy(o.p, o.n)), DeltaMagic, FarOps(r)) \o <<0>>
  IN IF r.out = e THEN "ok" ELSE "delta does not copy the right far blocks"
=============================================================================
