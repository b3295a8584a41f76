------------------------------- MODULE SigArgs -------------------------------
(***************************************************************************)
(* Selection of signature parameters.  Numbers up to 2^64 are little-      *)
(* endian sequences of 12 bytes.                                           *)
(***************************************************************************)
EXTENDS Format
N12(b) == [i \in 1..12 |-> IF i <= Len(b) THEN b[i] ELSE 0]
NatLE(n) == N12(<< n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>)   \* n < 2^31
RECURSIVE AddC(_, _, _, _, _)
AddC(a, b, i, c, acc) == IF i > 12 THEN acc
  ELSE LET s == a[i] + b[i] + c IN AddC(a, b, i + 1, s \div 256, Append(acc, s % 256))
Plus(a, b) == AddC(a, b, 1, 0, <<>>)
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] < b[i] THEN TRUE ELSE IF a[i] > b[i] THEN FALSE ELSE LeqFrom(a, b, i - 1)
Leq(a, b) == LeqFrom(a, b, 12)
Less(a, b) == ~Leq(b, a)
RECURSIVE MulC(_, _, _, _, _)
MulC(a, d, i, c, acc) == IF i > 12 THEN acc
  ELSE LET s == a[i] * d + c IN MulC(a, d, i + 1, s \div 256, Append(acc, s % 256))
MulByte(a, d) == MulC(a, d, 1, 0, <<>>)
ShiftBytes(a, n) == [i \in 1..12 |-> IF i <= n THEN 0 ELSE a[i - n]]
RECURSIVE TimesFrom(_, _, _)
TimesFrom(a, b, i) == IF i > 12 THEN NatLE(0) ELSE Plus(ShiftBytes(MulByte(a, b[i]), i - 1), TimesFrom(a, b, i + 1))
Times(a, b) == TimesFrom(a, b, 1)
Zero12 == NatLE(0)
\* floor(log2 v) for v >= 1
RECURSIVE Log2From(_, _, _)
Log2From(v, p, k) == IF Leq(Plus(p, p), v) THEN Log2From(v, Plus(p, p), k + 1) ELSE k
Log2(v) == Log2From(v, NatLE(1), 0)
\* floor(log2(s \div b + 1)): the largest k with b * 2^k <= s + b
RECURSIVE LogQFrom(_, _, _)
LogQFrom(t, p, k) == IF Leq(Plus(p, p), t) THEN LogQFrom(t, Plus(p, p), k + 1) ELSE k
LogQ(s, b) == LogQFrom(Plus(s, b), b, 0)

DefaultBlockLen == 2048
DefaultMinStrong == 12
\* r: [size (<<>> = unknown), magic (4 bytes), bl, sl] requested, [res, omagic, obl, osl] obtained
Unknown(r) == r.size = <<>>
ZeroB(b) == N12(b) = Zero12
MinusOne(b) == b = << 255, 255, 255, 255, 255, 255, 255, 255 >>
EffMagic(r) == IF r.magic = <<0,0,0,0>> THEN <<114, 115, 1, 71>> ELSE r.magic
Errors(r) == (IF ~KnownSigMagic(EffMagic(r)) THEN {BADMAGIC} ELSE {})
   \cup (IF ~Leq(N12(r.bl), NatLE(2147483647)) THEN {PARAM} ELSE {})
   \cup (IF ~MinusOne(r.sl) /\ KnownSigMagic(EffMagic(r)) /\ ~Leq(N12(r.sl), NatLE(MaxStrong(EffMagic(r)))) THEN {PARAM} ELSE {})
   \cup (IF ~KnownSigMagic(EffMagic(r)) /\ ~MinusOne(r.sl) /\ ~Leq(N12(r.sl), NatLE(32)) THEN {PARAM} ELSE {})
\* square root rounded down to a multiple of 128, at least 256
BlockLenRight(r, b) ==
  IF ~ZeroB(r.bl) THEN NatLE(b) = N12(r.bl)
  ELSE IF Unknown(r) THEN b = DefaultBlockLen
  ELSE IF Leq(N12(r.size), NatLE(65536)) THEN b = 256
  ELSE /\ b % 128 = 0 /\ b >= 256
       /\ Leq(Times(NatLE(b), NatLE(b)), N12(r.size))
       /\ Less(N12(r.size), Times(NatLE(b + 128), NatLE(b + 128)))
MinStrong(r, b) ==
  LET mx == MaxStrong(EffMagic(r))
      v == IF Unknown(r) THEN DefaultMinStrong
           ELSE 2 + (Log2(Plus(N12(r.size), NatLE(16777216))) + LogQ(N12(r.size), NatLE(b)) + 7) \div 8
  IN Min2(v, mx)
StrongRight(r, b, s) ==
  IF ZeroB(r.sl) THEN s = MaxStrong(EffMagic(r))
  ELSE IF MinusOne(r.sl) THEN s = MinStrong(r, b)
  ELSE NatLE(s) = N12(r.sl)
SigArgsVerdict(r) ==
  LET e == Errors(r) IN
  IF e # {} THEN IF r.res \in e THEN "ok" ELSE "invalid parameters not refused"
  ELSE IF r.res # DONE THEN "valid parameters refused"
  ELSE IF r.omagic # EffMagic(r) THEN "wrong format selected"
  ELSE IF ~BlockLenRight(r, r.obl) THEN "wrong block length selected"
  ELSE IF ~StrongRight(r, r.obl, r.osl) THEN "wrong strong-sum length selected"
  ELSE IF r.osl < 1 \/ r.osl > MaxStrong(r.omagic) \/ r.obl < 1 THEN "selected parameters invalid"
  ELSE "ok"
=============================================================================
