------------------------------ MODULE JudgeMisc ------------------------------
(***************************************************************************)
(* Records about the building blocks: pending -> verdict.                  *)
(***************************************************************************)
EXTENDS SigArgs, IOUtils, Json
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES rid, verdict
vars == <<rid, verdict>>

\* --- checksum of a window given as runs <<byte, length>>: {t:"runs", kind, runs, count, hi, lo}
\* modulo 2^16: L*(L+1)/2
Tri(L) == IF L % 2 = 0 THEN Mul16((L \div 2) % M16, (L + 1) % M16)[2] ELSE Mul16(L % M16, (((L - 1) \div 2) + 1) % M16)[2]
RollRun(s, r) == LET v == r[1] + 31  L == r[2] IN
  << (s[1] + Mul16(L % M16, s[2])[2] + Mul16(Tri(L), v)[2]) % M16, (s[2] + Mul16(L % M16, v)[2]) % M16 >>
\* <<M^L, 1 + M + .. + M^(L-1)>> by doubling
RECURSIVE PowSum(_)
PowSum(L) == IF L = 0 THEN << <<0, 1>>, Zero32 >>
  ELSE LET h == TLCEval(PowSum(L \div 2))
           d == << Mul32(h[1], h[1]), Add32(h[2], Mul32(h[1], h[2])) >>
       IN IF L % 2 = 0 THEN d ELSE << Mul32(d[1], RKMult), Add32(Mul32(d[2], RKMult), <<0, 1>>) >>
RKRun(h, r) == LET p == PowSum(r[2]) IN Add32(Mul32(h, p[1]), Mul32(<<0, r[1]>>, p[2]))
JRuns(r) ==
  LET n == FoldLeft(LAMBDA a, x : a + x[2], 0, r.runs)
      d == IF r.kind = 0 THEN FoldLeft(RollRun, <<0, 0>>, r.runs) ELSE FoldLeft(RKRun, <<0, 1>>, r.runs)
  IN IF r.count # n THEN "wrong byte count" ELSE IF <<r.hi, r.lo>> = d THEN "ok" ELSE "checksum of a long window differs"

\* --- text: {t:"b64"|"unb64"|"hex", in, out}
Alphabet == << 65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,
  97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,
  48,49,50,51,52,53,54,55,56,57,43,47 >>
\* 6-bit group k (from 0) of the bytes s
Bit(s, i) == IF i \div 8 >= Len(s) THEN 0 ELSE (s[(i \div 8) + 1] \div (2^(7 - (i % 8)))) % 2
Group(s, k) == FoldLeft(LAMBDA a, j : 2*a + Bit(s, 6*k + j), 0, <<0, 1, 2, 3, 4, 5>>)
B64(s) == [k \in 1..((Len(s)*8 + 5) \div 6) |-> Alphabet[Group(s, k - 1) + 1]]
Code(c) == IF \E i \in DOMAIN Alphabet : Alphabet[i] = c THEN (CHOOSE i \in DOMAIN Alphabet : Alphabet[i] = c) - 1 ELSE -1
RECURSIVE Valid(_, _)
Valid(s, i) == IF i > Len(s) \/ Code(s[i]) = -1 THEN i - 1 ELSE Valid(s, i + 1)
CBit(codes, i) == (codes[(i \div 6) + 1] \div (2^(5 - (i % 6)))) % 2
UnB64(s) == LET n == Valid(s, 1)  codes == TLCEval([i \in 1..n |-> Code(s[i])]) IN
  [k \in 1..((n * 6) \div 8) |-> FoldLeft(LAMBDA a, j : 2*a + CBit(codes, 8*(k-1) + j), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(s) == [k \in 1..(2*Len(s)) |-> LET b == s[((k - 1) \div 2) + 1] IN HexDigit(IF k % 2 = 1 THEN b \div 16 ELSE b % 16)]
JText(r) == IF r.out = (CASE r.t = "b64" -> B64(r.in) [] r.t = "unb64" -> UnB64(r.in) [] r.t = "hex" -> Hex(r.in)) THEN "ok" ELSE "text conversion differs"
\* much data: {t:"b64big", n, len, groups: <<3 bytes, 4 characters>>, back, same}
JTextBig(r) == IF r.len # 4 * (r.n \div 3) + (IF r.n % 3 = 0 THEN 0 ELSE (r.n % 3) + 1) THEN "encoded text has the wrong length"
               ELSE IF \E k \in DOMAIN r.groups : r.groups[k][2] # B64(r.groups[k][1]) THEN "text conversion of much data differs"
               ELSE IF r.back # r.n \/ r.same # 1 THEN "decoding does not undo encoding" ELSE "ok"
\* the specification itself: decoding undoes encoding
JTextId(r) == IF UnB64(B64(r.in)) = r.in THEN "ok" ELSE "specification: decoding does not undo encoding"

\* --- printed statistics: {t:"fmt", f: fields as decimal texts, size, text, log}; the part
\*     before the speeds (which depend on the clock) must be there as far as it fits
FmtText(f) ==
  (IF f.op = "" THEN "noop" ELSE f.op) \o " statistics: "
  \o (IF f.lit_cmds # "0" THEN "literal[" \o f.lit_cmds \o " cmds, " \o f.lit_bytes \o " bytes, " \o f.lit_cmdbytes \o " cmdbytes] " ELSE "")
  \o (IF f.sig_cmds # "0" THEN "in-place-signature[" \o f.sig_cmds \o " cmds, " \o f.sig_bytes \o " bytes] " ELSE "")
  \o (IF f.copy_cmds # "0" \/ f.false_matches # "0" THEN "copy[" \o f.copy_cmds \o " cmds, " \o f.copy_bytes \o " bytes, " \o f.copy_cmdbytes \o " cmdbytes, " \o f.false_matches \o " false]" ELSE "")
  \o (IF f.sig_blocks # "0" THEN "signature[" \o f.sig_blocks \o " blocks, " \o f.block_len \o " bytes per block]" ELSE "")
Cut(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
JFmt(r) == LET t == FmtText(r.f)  room == IF r.size = 0 THEN 0 ELSE r.size - 1 IN
  IF Cut(r.text, Len(t)) # Cut(t, room) THEN "printed statistics differ"
  ELSE IF Cut(r.log, 10 + Len(t)) # "librsync: " \o t THEN "logged statistics differ"
  ELSE "ok"

\* --- speeds: {t:"speed", d (end - start), io: <<in, out>> as shown: MB and MB/s in tenths, sec shown,
\*     q: <<bytes in, bytes out>> in tenths of a MB, rounded}.  A run shorter than a second counts as one.
JSpeed(r) == LET sec == IF r.d = 0 THEN 1 ELSE r.d
                 Off(a, b) == IF a > b THEN a - b ELSE b - a IN
  IF Len(r.io) # 5 THEN "no speeds"
  ELSE IF r.io[5] # sec /\ ~(r.d = 0 /\ r.io[5] = 0) THEN "seconds differ"
  ELSE IF Off(r.io[1], r.q[1]) > 1 \/ Off(r.io[3], r.q[2]) > 1 THEN "megabytes differ"
  ELSE IF Off(r.io[2], r.q[1] \div sec) > 1 \/ Off(r.io[4], r.q[2] \div sec) > 1 THEN "speed differs"
  ELSE "ok"

\* --- a big index: {t:"htbig", n, mult, base (words), finds: <<k, hi, lo, id>>, refused, wrong, dup, visited}
\* entry k of n was inserted with the hash k*mult + base, mult odd, so hashes differ and a lookup of
\* the hash of k finds entry k, or nothing when k was not inserted
HashOf(r, k) == Add32(Mul32(<<k \div M16, k % M16>>, r.mult), r.base)
JHtBig(r) ==
  IF r.mult[2] % 2 = 0 THEN "specification: hashes may coincide"
  ELSE IF \E i \in DOMAIN r.finds : <<r.finds[i][2], r.finds[i][3]>> # HashOf(r, r.finds[i][1]) THEN "specification: other hash than meant"
  ELSE IF r.refused # 0 THEN "insertion refused below the requested capacity"
  ELSE IF \E i \in DOMAIN r.finds : r.finds[i][4] # (IF r.finds[i][1] < r.n THEN r.finds[i][1] ELSE -1) THEN "a lookup in a big table goes wrong"
  ELSE IF r.wrong # 0 THEN "lookups in a big table go wrong"
  ELSE IF r.dup # 0 \/ r.visited # r.n THEN "iteration over a big table does not visit every entry once"
  ELSE "ok"

\* --- digests
JMd4(r) == IF r.out = MD4(r.in) THEN "ok" ELSE "MD4 digest differs"
JMd4x(r) == LET st == << LE32At(r.st, 1), LE32At(r.st, 5), LE32At(r.st, 9), LE32At(r.st, 13) >> IN
            IF r.out = MD4Finish(st, r.tail, r.bits) THEN "ok" ELSE "MD4 digest of a long message differs"
Verdict(r) == CASE r.t = "runs" -> JRuns(r) [] r.t \in {"b64", "unb64", "hex"} -> JText(r) [] r.t = "b64id" -> JTextId(r)
                [] r.t = "md4" -> JMd4(r) [] r.t = "md4x" -> JMd4x(r) [] r.t = "b64big" -> JTextBig(r) [] r.t = "htbig" -> JHtBig(r) [] r.t = "fmt" -> JFmt(r) [] r.t = "speed" -> JSpeed(r) [] r.t = "sigargs" -> SigArgsVerdict(r)
Init == rid \in DOMAIN Recs /\ verdict = "pending"
Next == /\ verdict = "pending" /\ verdict' = Verdict(Recs[rid]) /\ UNCHANGED rid
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"REJECT", rid, verdict'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
