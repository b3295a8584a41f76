------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Fixed-width machine words for TLC, whose integers are 32-bit signed.    *)
(*   W32 : <<hi, lo>>               two 16-bit limbs, most significant 1st *)
(*   W64 : <<l3, l2, l1, l0>>       four 16-bit limbs, most significant 1st*)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE Bitwise

M16 == 65536

Zero32 == <<0, 0>>
Add32(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div M16)) % M16, l % M16>>
Neg32(a) == LET l == (M16 - a[2]) IN
            << ((65535 - a[1]) + (l \div M16)) % M16, l % M16 >>
Sub32(a, b) == Add32(a, Neg32(b))
And32(a, b) == << a[1] & b[1], a[2] & b[2] >>
Or32(a, b)  == << a[1] | b[1], a[2] | b[2] >>
Xor32(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
Not32(a)    == << 65535 - a[1], 65535 - a[2] >>
\* 16x16 -> 32 bit product as a W32 (8-bit split so no partial overflows 2^31)
Mul16(x, y) == LET p0 == x * (y % 256)          \* < 2^24
                   p1 == x * (y \div 256)       \* < 2^24, weight 2^8
                   lo == (p0 % M16) + (p1 % 256) * 256
               IN << (p0 \div M16) + (p1 \div 256) + (lo \div M16), lo % M16 >>
\* product modulo 2^32
Mul32(a, b) == LET ll == Mul16(a[2], b[2])
                   hl == Mul16(a[1], b[2])
                   lh == Mul16(a[2], b[1])
               IN << (ll[1] + hl[2] + lh[2]) % M16, ll[2] >>
RotL32(a, n) ==
  IF n = 0 THEN a
  ELSE IF n >= 16 THEN LET b == <<a[2], a[1]>> m == n - 16 IN
         IF m = 0 THEN b ELSE
         << ((b[1] * (2^m)) % M16) + (b[2] \div (2^(16-m))),
            ((b[2] * (2^m)) % M16) + (b[1] \div (2^(16-m))) >>
  ELSE << ((a[1] * (2^n)) % M16) + (a[2] \div (2^(16-n))),
          ((a[2] * (2^n)) % M16) + (a[1] \div (2^(16-n))) >>
ShR32(a, n) ==
  IF n >= 16 THEN << 0, a[1] \div (2^(n-16)) >>
  ELSE << a[1] \div (2^n), (a[2] \div (2^n)) + (a[1] % (2^n)) * (2^(16-n)) >>
BytesBE32(a) == << a[1] \div 256, a[1] % 256, a[2] \div 256, a[2] % 256 >>
BytesLE32(a) == << a[2] % 256, a[2] \div 256, a[1] % 256, a[1] \div 256 >>
\* the W32 stored big endian at s[i..i+3]
BE32At(s, i) == << s[i]*256 + s[i+1], s[i+2]*256 + s[i+3] >>
LE32At(s, i) == << s[i+3]*256 + s[i+2], s[i+1]*256 + s[i] >>
\* small natural (< 2^31) to W32
W32Of(n) == << n \div M16, n % M16 >>

Zero64 == <<0, 0, 0, 0>>
Add64(a, b) == LET s4 == a[4] + b[4]
                   s3 == a[3] + b[3] + (s4 \div M16)
                   s2 == a[2] + b[2] + (s3 \div M16)
                   s1 == a[1] + b[1] + (s2 \div M16)
               IN << s1 % M16, s2 % M16, s3 % M16, s4 % M16 >>
Xor64(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4] >>
Not64(a) == << 65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4] >>
RotR64by32(a) == << a[3], a[4], a[1], a[2] >>
RotR64by16(a) == << a[4], a[1], a[2], a[3] >>
RotR64by24(a) == \* 16 then 8
  << (a[4] \div 256) + (a[3] % 256) * 256, (a[1] \div 256) + (a[4] % 256) * 256,
     (a[2] \div 256) + (a[1] % 256) * 256, (a[3] \div 256) + (a[2] % 256) * 256 >>
RotR64by63(a) == \* rotate left one
  << ((a[1]*2) % M16) + (a[2] \div 32768), ((a[2]*2) % M16) + (a[3] \div 32768),
     ((a[3]*2) % M16) + (a[4] \div 32768), ((a[4]*2) % M16) + (a[1] \div 32768) >>
LE64At(s, i) == << s[i+7]*256 + s[i+6], s[i+5]*256 + s[i+4], s[i+3]*256 + s[i+2], s[i+1]*256 + s[i] >>
BytesLE64(a) == << a[4] % 256, a[4] \div 256, a[3] % 256, a[3] \div 256,
                   a[2] % 256, a[2] \div 256, a[1] % 256, a[1] \div 256 >>
=============================================================================
