------------------------------- MODULE Hashes -------------------------------
(***************************************************************************)
(* The four checksum functions of the signature formats, from their public *)
(* definitions: the rsync rolling sum, the RabinKarp rolling sum, MD4      *)
(* (RFC 1320) and unkeyed BLAKE2b with a 32-byte digest (RFC 7693).        *)
(* Data are sequences of bytes (0..255).                                   *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Words
LOCAL INSTANCE TLC

---------------------------------------------------------------------------
\* rsync rolling sum: two 16-bit accumulators, every byte offset by 31
RollStep(acc, b) == LET s1 == (acc[2] + b + 31) % M16 IN <<(acc[1] + s1) % M16, s1>>
\* result as W32 <<s2, s1>>
Rollsum(s) == FoldLeft(RollStep, <<0, 0>>, s)

\* RabinKarp polynomial sum: h := h * 0x08104225 + byte, starting at 1
RKMult == << 2064, 16933 >>                        \* 0x0810 0x4225
RKStep(h, b) == Add32(Mul32(h, RKMult), <<0, b>>)
RabinKarp(s) == FoldLeft(RKStep, <<0, 1>>, s)

---------------------------------------------------------------------------
\* MD4
MD4Init == << <<26437,8961>>, <<61389,43913>>, <<39098,56574>>, <<4146,21622>> >>
LOCAL F(x,y,z) == Or32(And32(x,y), And32(Not32(x),z))
LOCAL G(x,y,z) == Or32(Or32(And32(x,y), And32(x,z)), And32(y,z))
LOCAL H(x,y,z) == Xor32(Xor32(x,y),z)
LOCAL K2 == << 23170, 31129 >>                     \* 5A827999
LOCAL K3 == << 28377, 60321 >>                     \* 6ED9EBA1
LOCAL R1 == << <<0,3>>,<<1,7>>,<<2,11>>,<<3,19>>,<<4,3>>,<<5,7>>,<<6,11>>,<<7,19>>,
               <<8,3>>,<<9,7>>,<<10,11>>,<<11,19>>,<<12,3>>,<<13,7>>,<<14,11>>,<<15,19>> >>
LOCAL R2 == << <<0,3>>,<<4,5>>,<<8,9>>,<<12,13>>,<<1,3>>,<<5,5>>,<<9,9>>,<<13,13>>,
               <<2,3>>,<<6,5>>,<<10,9>>,<<14,13>>,<<3,3>>,<<7,5>>,<<11,9>>,<<15,13>> >>
LOCAL R3 == << <<0,3>>,<<8,9>>,<<4,11>>,<<12,15>>,<<2,3>>,<<10,9>>,<<6,11>>,<<14,15>>,
               <<1,3>>,<<9,9>>,<<5,11>>,<<13,15>>,<<3,3>>,<<11,9>>,<<7,11>>,<<15,15>> >>
\* state is <<a,b,c,d>>; one step computes new a and rotates roles
LOCAL MStep(st, x, k, f, s) ==
   << st[4], RotL32(Add32(Add32(st[1], f), Add32(x, k)), s), st[2], st[3] >>
MD4Compress(st, blk, o) ==
  LET X == TLCEval([i \in 0..15 |-> LE32At(blk, o + 4*i)])
      r1 == FoldLeft(LAMBDA a, e : MStep(a, X[e[1]], Zero32, F(a[2],a[3],a[4]), e[2]), st, R1)
      r2 == FoldLeft(LAMBDA a, e : MStep(a, X[e[1]], K2, G(a[2],a[3],a[4]), e[2]), r1, R2)
      r3 == FoldLeft(LAMBDA a, e : MStep(a, X[e[1]], K3, H(a[2],a[3],a[4]), e[2]), r2, R3)
  IN << Add32(st[1],r3[1]), Add32(st[2],r3[2]), Add32(st[3],r3[3]), Add32(st[4],r3[4]) >>
\* 8 little-endian bytes of 8*n (n a byte count < 2^28)
LOCAL BitLen(n) == LET b == n * 8 IN << b % 256, (b \div 256) % 256, (b \div M16) % 256, b \div 16777216, 0,0,0,0 >>
MD4Pad(n) == <<128>> \o [i \in 1..((119 - (n % 64)) % 64) |-> 0]
\* run the blocks of the (already padded) message m from state st
MD4Run(st, m) == FoldLeft(LAMBDA a, i : MD4Compress(a, m, 64*i + 1), st,
                          [i \in 1..(Len(m) \div 64) |-> i - 1])
MD4Digest(st) == BytesLE32(st[1]) \o BytesLE32(st[2]) \o BytesLE32(st[3]) \o BytesLE32(st[4])
MD4(s) == MD4Digest(MD4Run(MD4Init, s \o MD4Pad(Len(s)) \o BitLen(Len(s))))
\* finish from chaining state st a tail whose total length (in bits) is the
\* 8 little-endian bytes bits8; tail is what follows the last whole block
MD4Finish(st, tail, bits8) == MD4Digest(MD4Run(st, tail \o MD4Pad(Len(tail)) \o bits8))

---------------------------------------------------------------------------
\* BLAKE2b-256
LOCAL IV == << <<27145,58983,62396,51464>>, <<47975,44677,33994,42811>>,
         <<15470,62322,65172,63531>>, <<42319,62778,24349,14065>>,
         <<20750,21119,44518,33489>>, <<39685,26764,11070,27679>>,
         <<8067,55723,64321,48491>>, <<23520,52505,4990,8569>> >>
LOCAL Sigma == <<
 << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9,10,11,12,13,14,15>>,
 <<14,10, 4, 8, 9,15,13, 6, 1,12, 0, 2,11, 7, 5, 3>>,
 <<11, 8,12, 0, 5, 2,15,13,10,14, 3, 6, 7, 1, 9, 4>>,
 << 7, 9, 3, 1,13,12,11,14, 2, 6, 5,10, 4, 0,15, 8>>,
 << 9, 0, 5, 7, 2, 4,10,15,14, 1,11,12, 6, 8, 3,13>>,
 << 2,12, 6,10, 0,11, 8, 3, 4,13, 7, 5,15,14, 1, 9>>,
 <<12, 5, 1,15,14,13, 4,10, 0, 7, 6, 3, 9, 2, 8,11>>,
 <<13,11, 7,14,12, 1, 3, 9, 5, 0,15, 4, 8, 6, 2,10>>,
 << 6,15,14, 9,11, 3, 0, 8,12, 2,13, 7, 1, 4,10, 5>>,
 <<10, 2, 8, 4, 7, 6, 1, 5,15,11, 9,14, 3,12,13, 0>>,
 << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9,10,11,12,13,14,15>>,
 <<14,10, 4, 8, 9,15,13, 6, 1,12, 0, 2,11, 7, 5, 3>> >>
\* G on (a,b,c,d) with message words x,y -> <<a,b,c,d>>
LOCAL BG(a, b, c, d, x, y) ==
  LET a1 == Add64(Add64(a, b), x)
      d1 == RotR64by32(Xor64(d, a1))
      c1 == Add64(c, d1)
      b1 == RotR64by24(Xor64(b, c1))
      a2 == Add64(Add64(a1, b1), y)
      d2 == RotR64by16(Xor64(d1, a2))
      c2 == Add64(c1, d2)
      b2 == RotR64by63(Xor64(b1, c2))
  IN << a2, b2, c2, d2 >>
LOCAL BRound(v, m, s) ==
  LET A == BG(v[1],v[5],v[9], v[13], m[s[1]], m[s[2]])
      B == BG(v[2],v[6],v[10],v[14], m[s[3]], m[s[4]])
      C == BG(v[3],v[7],v[11],v[15], m[s[5]], m[s[6]])
      D == BG(v[4],v[8],v[12],v[16], m[s[7]], m[s[8]])
      E == BG(A[1],B[2],C[3],D[4], m[s[9]], m[s[10]])
      P == BG(B[1],C[2],D[3],A[4], m[s[11]], m[s[12]])
      Q == BG(C[1],D[2],A[3],B[4], m[s[13]], m[s[14]])
      R == BG(D[1],A[2],B[3],C[4], m[s[15]], m[s[16]])
  IN << E[1],P[1],Q[1],R[1], R[2],E[2],P[2],Q[2],
        Q[3],R[3],E[3],P[3], P[4],Q[4],R[4],E[4] >>
\* h: 8 W64, bytes at s[o..o+127] (zero filled past the end), t bytes so far
LOCAL BCompress(h, s, o, t, last) ==
  LET At(i) == IF i <= Len(s) THEN s[i] ELSE 0
      m == TLCEval([i \in 0..15 |-> LET p == o + 8*i IN
             IF p + 7 <= Len(s) THEN LE64At(s, p)
             ELSE << At(p+7)*256 + At(p+6), At(p+5)*256 + At(p+4), At(p+3)*256 + At(p+2), At(p+1)*256 + At(p) >>])
      v0 == h \o << IV[1], IV[2], IV[3], IV[4],
                    Xor64(IV[5], <<0,0,t \div M16,t % M16>>), IV[6],
                    IF last THEN Not64(IV[7]) ELSE IV[7], IV[8] >>
      v == FoldLeft(LAMBDA a, r : BRound(a, m, r), v0, Sigma)
  IN TLCEval([i \in 1..8 |-> Xor64(h[i], Xor64(v[i], v[i+8]))])
BlakeH0 == << Xor64(IV[1], <<0, 0, 257, 32>>) >> \o SubSeq(IV, 2, 8)
Blake2b(s) ==
  LET n == IF Len(s) = 0 THEN 1 ELSE (Len(s) + 127) \div 128
      h == FoldLeft(LAMBDA a, i : BCompress(a, s, 128*(i-1) + 1,
                        IF i = n THEN Len(s) ELSE 128*i, i = n), BlakeH0, [i \in 1..n |-> i])
  IN BytesLE64(h[1]) \o BytesLE64(h[2]) \o BytesLE64(h[3]) \o BytesLE64(h[4])
=============================================================================
