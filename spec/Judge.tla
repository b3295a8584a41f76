-------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Validates records of what the implementation did against the reference  *)
(* specifications.  One behaviour per record: pending -> verdict.          *)
(***************************************************************************)
EXTENDS Contract, SymDelta, Far, IOUtils, Json

Recs == ndJsonDeserialize(IOEnv.RECS)

VARIABLES rid, verdict
vars == <<rid, verdict>>

\* --- signature: {t:"sig", in, magic, bl, sl, out}
JSig(r) == IF r.out = Signature(r.in, r.magic, r.bl, r.sl) THEN "ok" ELSE "signature differs from its definition"

\* --- well-formed canonical delta: {t:"wf", out, bn (basis length), nn (new length)}
WFAdj(cs) == \A i \in 1..(Len(cs)-1) :
   /\ (cs[i].kind = "lit" /\ cs[i+1].kind = "lit") => cs[i].len.v = MaxLiteral
   /\ (cs[i].kind = "copy" /\ cs[i+1].kind = "copy" /\ ~cs[i].pos.big /\ ~cs[i].len.big /\ ~cs[i+1].pos.big)
        => cs[i].pos.v + cs[i].len.v # cs[i+1].pos.v
JWf(r) ==
  LET p == TLCEval(DeltaCmds(r.out))  cs == p.cmds IN
  IF ~p.ok THEN "delta is not a well-formed stream"
  ELSE IF \E i \in DOMAIN cs : cs[i].kind = "lit" /\ ~LitCanonical(cs[i]) THEN "literal not in shortest form or too long"
  ELSE IF \E i \in DOMAIN cs : cs[i].kind = "copy" /\ ~CopyCanonical(cs[i]) THEN "copy not in shortest form"
  ELSE IF \E i \in DOMAIN cs : cs[i].kind = "copy" /\ (cs[i].len.neg \/ cs[i].pos.neg \/ cs[i].len.big \/ cs[i].pos.big
             \/ cs[i].len.v = 0 \/ cs[i].pos.v > r.bn - cs[i].len.v) THEN "copy out of range"
  ELSE IF ~WFAdj(cs) THEN "adjacent commands not merged"
  ELSE IF FoldLeft(LAMBDA a, c : a + c.len.v, 0, cs) # r.nn THEN "delta describes the wrong amount of data"
  ELSE "ok"

\* --- delta without a basis: {t:"slackwf", out, in}: well-formed, literals only, canonical, rebuilds the input
RECURSIVE LitData(_, _, _)
LitData(d, cs, acc) == IF cs = <<>> THEN acc
                       ELSE LitData(d, Tail(cs), acc \o SubSeq(d, Head(cs).at + Head(cs).hdr, Head(cs).at + Head(cs).hdr + Head(cs).len.v - 1))
JSlackWf(r) ==
  LET p == TLCEval(DeltaCmds(r.out))  cs == p.cmds IN
  IF ~p.ok THEN "delta is not a well-formed stream"
  ELSE IF \E i \in DOMAIN cs : cs[i].kind # "lit" THEN "copy without a basis"
  ELSE IF \E i \in DOMAIN cs : ~(IF cs[i].len.v <= 64 THEN cs[i].imm ELSE ~cs[i].imm /\ cs[i].w = Width(cs[i].len.v)) THEN "literal not in shortest form"
  ELSE IF LitData(r.out, cs, <<>>) # r.in THEN "delta does not describe its input"
  ELSE "ok"

\* --- memory: {t:"mem", kind, n (bytes handled), unit (what one step looks at), win (largest window),
\*     cnt, sl (blocks of a loaded signature), peak (most bytes held), left (held when over)}
\* a fixed amount, some times the piece looked at and the windows, and what a signature is there to keep;
\* never anything that grows with n
MemBound(r) == 1048576 + 4 * r.unit + 4 * r.win + (IF r.kind = "load" THEN r.cnt * (4 * (8 + r.sl) + 64) ELSE 0)
JMem(r) == IF r.peak > MemBound(r) THEN "memory held grows with the data"
           ELSE "ok"

\* --- work done by a job: {t:"work", kind, unit, n, m (bytes in and out), calls, work}
\* (in units of 64 steps, a step being a basic block or 16 bytes moved): 40 steps for every byte in or out, 256 for every call,
\* and 4 for every byte of a block, once
WorkBound(r) == 2000 + ((r.n + r.m) * 5) \div 8 + 4 * r.calls + r.unit \div 16
JWork(r) == IF r.work > WorkBound(r) THEN "the work grows faster than the data" ELSE "ok"

\* --- round trip: {t:"rt", basis, new, delta}
JRt(r) == LET p == PatchRun(r.delta, r.basis) IN
          IF p.st # "done" THEN "delta cannot be applied to its basis"
          ELSE IF p.out = r.new THEN "ok" ELSE "delta does not rebuild the new data"

\* --- byte-level matching: {t:"match", sig, new, out}
JMatch(r) ==
  LET p == DeltaCmds(r.out) IN
  IF ~p.ok THEN "delta is not a well-formed stream"
  ELSE IF Meaning(p.cmds) = Greedy(r.sig, r.new) THEN "ok" ELSE "delta does not use exactly the matching blocks"
\* exact bytes
JDeltaBytes(r) == IF r.out = EncDelta(Greedy(r.sig, r.new), r.new) THEN "ok" ELSE "delta bytes differ"

\* --- small-alphabet matching by content: {t:"eq", basis, bl, new, out}
EqDelta(r) == EncDelta(GreedyEq([k \in 1..NBlocks(Len(r.basis), r.bl) |-> Block(r.basis, r.bl, k)], r.bl, r.new, 1, <<>>), r.new)
JEq(r) == IF r.out # EqDelta(r) THEN "delta is not the greedy canonical one"
          ELSE LET p == PatchRun(r.out, r.basis) IN
               IF p.st = "done" /\ p.out = r.new THEN "ok" ELSE "specification of delta and patch disagree"

\* --- symbolic matching: {t:"sym", basis, bl, new, out}
JSym(r) ==
  LET p == DeltaCmds(r.out) IN
  IF ~p.ok THEN "delta is not a well-formed stream"
  ELSE IF Meaning(p.cmds) = SGreedy(r.basis, r.bl, r.new) THEN "ok"
  ELSE "delta does not use exactly the matching blocks"

\* --- patch: {t:"patch", in, basis, res, out}
JPatch(r) ==
  LET p == PatchRun(r.in, r.basis) IN
  IF r.res \notin PatchResults(p.st) THEN "wrong result of patch (" \o p.st \o ")"
  ELSE IF r.out # p.out THEN "wrong output of patch" ELSE "ok"

\* --- command headers of a large delta: {t:"hdrs", hdrs, pieces: <<kind, pos, len>>}
JHdrs(r) ==
  IF Len(r.hdrs) # Len(r.pieces) THEN "number of commands differs"
  ELSE IF \A i \in DOMAIN r.hdrs :
       LET c == CmdAt(r.hdrs[i], 1)  p == r.pieces[i] IN
       /\ c.hdr = Len(r.hdrs[i]) /\ c.len.v = p[3] /\ ~c.len.big
       /\ IF p[1] = "l" THEN c.kind = "lit" ELSE c.kind = "copy" /\ c.pos.v = p[2] /\ ~c.pos.big
  THEN "ok" ELSE "commands do not describe these pieces"

\* --- copies from a sparse basis with islands <<start (8 bytes), data>>:
\*     {t:"farpatch", in, isl, res, out}; every copy is of bytes of an island
RECURSIVE FarOut(_, _, _, _)
FarOut(d, cs, isl, acc) ==
  IF cs = <<>> THEN acc
  ELSE LET c == Head(cs) IN
       IF c.kind = "lit" THEN FarOut(d, Tail(cs), isl, acc \o SubSeq(d, c.at + c.hdr, c.at + c.hdr + c.len.v - 1))
       ELSE LET p == W(Pad8(c.posb))
                In(k) == LET a == W(isl[k][1]) IN Le(a, p) /\ Le(WSub(p, a), WN(Len(isl[k][2]) - c.len.v))
                k == CHOOSE k \in DOMAIN isl : In(k)
                o == WInt(WSub(p, W(isl[k][1])))
            IN FarOut(d, Tail(cs), isl, acc \o SubSeq(isl[k][2], o + 1, o + c.len.v))
JFarPatch(r) == IF r.res # DONE THEN "patch with far copies failed"
                ELSE IF r.out = FarOut(r.in, DeltaCmds(r.in).cmds, r.isl, <<>>) THEN "ok" ELSE "far copies give wrong data"

\* --- load: {t:"load", in, res}
JLoad(r) == IF r.res \in LoadResults(r.in) THEN "ok" ELSE "wrong result of signature loading"

\* --- statistics of a delta or patch: {t:"dstat", in (delta bytes up to its end), s:[6], }
CmdStats(cs) ==
  LET L == SelectSeq(cs, LAMBDA c : c.kind = "lit")  C == SelectSeq(cs, LAMBDA c : c.kind = "copy") IN
  << Len(L), FoldLeft(LAMBDA a, c : a + c.len.v, 0, L), FoldLeft(LAMBDA a, c : a + c.hdr, 0, L),
     Len(C), FoldLeft(LAMBDA a, c : a + c.len.v, 0, C), FoldLeft(LAMBDA a, c : a + c.hdr, 0, C) >>
JDStat(r) == LET p == DeltaCmds(r.in) IN
  IF ~p.ok THEN "statistics case is not a well-formed delta"
  ELSE IF r.s = CmdStats(p.cmds) THEN "ok" ELSE "statistics differ from the stream"

\* --- statistics of signature generation and loading: {t:"sgstat", n (bytes of data), bl, s: <<blocks, block length>>}
\*     / {t:"ldstat", in (a well-formed signature), s}
JSgStat(r) == IF r.s = << NBlocks(r.n, r.bl), r.bl >> THEN "ok" ELSE "signature statistics differ"
JLdStat(r) == LET bl == Num(SubSeq(r.in, 5, 8)).v  sl == Num(SubSeq(r.in, 9, 12)).v IN
              IF r.s = << (Len(r.in) - 12) \div (4 + sl), bl >> THEN "ok" ELSE "loading statistics differ"
\* --- statistics beyond 32 bits (numbers are 8 bytes): {t:"bigstat", kind, nin, nout, blocks, bl, hdrs,
\*     s: <<lit_cmds, lit_bytes, lit_cmdbytes, copy_cmds, copy_bytes, copy_cmdbytes, in_bytes, out_bytes>>};
\*     hdrs the headers of the commands, <<>> for a delta of literals cut anyhow
BsLen(h) == LET c == CmdAt(h, 1) IN IF c.kind = "copy" THEN W(Pad8(c.lenb)) ELSE W(Pad8(SubSeq(h, IF c.imm THEN 1 ELSE 2, Len(h))))
BsSum(hs, k) == FoldLeft(LAMBDA a, h : IF CmdAt(h, 1).kind = k THEN << Add64(a[1], WN(1)), Add64(a[2], BsLen(h)), Add64(a[3], WN(Len(h))) >> ELSE a, << WN(0), WN(0), WN(0) >>, hs)
JBigStat(r) == LET s == [k \in 1..8 |-> W(r.s[k])]  nin == W(r.nin)  nout == W(r.nout)
                   L == BsSum(r.hdrs, "lit")  C == BsSum(r.hdrs, "copy")
                   data == Add64(s[2], s[5])  stream == Add64(WN(5), Add64(s[2], Add64(s[3], s[6]))) IN
  IF s[7] # nin THEN "bytes read are miscounted" ELSE IF s[8] # nout THEN "bytes written are miscounted"
  ELSE IF r.kind = "sig" THEN IF Le(nin, Prod(r.blocks, r.bl)) /\ (r.blocks = 0 \/ Lt(Prod(r.blocks - 1, r.bl), nin)) THEN "ok" ELSE "blocks are miscounted"
  ELSE IF data # (IF r.kind = "delta" THEN nin ELSE nout) THEN "the bytes of the commands do not add up"
  ELSE IF stream # (IF r.kind = "delta" THEN nout ELSE nin) THEN "the bytes of the delta do not add up"
  ELSE IF r.hdrs = <<>> THEN IF s[4] = WN(0) /\ s[5] = WN(0) /\ s[6] = WN(0) THEN "ok" ELSE "copies from nowhere are counted"
  ELSE IF <<s[1], s[2], s[3]>> # L THEN "literals are miscounted" ELSE IF <<s[4], s[5], s[6]>> # C THEN "copies are miscounted" ELSE "ok"

\* --- commands beyond 32 bits: {t:"longcopy", hdrs, cmds: <<kind, position, length>> with numbers of 8 bytes}; the only
\*     data the commands can describe, so each once, in order and in the shortest form
JLongCopy(r) ==
  IF Len(r.hdrs) # Len(r.cmds) THEN "more or fewer commands than the data needs"
  ELSE IF \E i \in DOMAIN r.hdrs :
       LET c == CmdAt(r.hdrs[i], 1)  e == r.cmds[i] IN
       ~ /\ c.kind = e[1] /\ c.hdr = Len(r.hdrs[i]) /\ BsLen(r.hdrs[i]) = W(e[3])
         /\ c.kind = "copy" => W(Pad8(c.posb)) = W(e[2]) /\ CopyCanonical(c)
  THEN "a command is not the one for its data" ELSE "ok"

\* --- bytes in and out of a whole-file operation that succeeded: {t:"iostat", nin, nout, s}
JIoStat(r) == IF r.s = << r.nin, r.nout >> THEN "ok" ELSE "bytes read or written miscounted"

\* --- statistics of matching: {t:"mstat", sig, new, reps (deltas made), s: <<searches, matches, weak compares,
\*     strong compares, strong calculations>>, p: <<matches, strong compares, strong calculations per search in 1/100000, -1 for more than 10>>}
Near(p, a, n) == n = 0 \/ IF p = -1 \/ a > 10 * n THEN p = -1 /\ a >= 10 * n ELSE 2*p*n - 2*100000*a <= n + 2 /\ 2*100000*a - 2*p*n <= n + 2
JMStat(r) == LET c == TLCEval(ScanCounts(r.sig, r.new))  s == r.s IN
  IF s[1] # r.reps * c[1] THEN "searches are miscounted"
  ELSE IF s[2] # r.reps * c[2] THEN "matches are miscounted"
  ELSE IF s[5] # r.reps * c[3] THEN "strong checksum calculations are miscounted"
  ELSE IF s[4] < s[5] \/ s[4] < s[2] \/ s[3] < s[4] THEN "fewer compares than matches"
  ELSE IF ~Near(r.p[1], s[2], s[1]) \/ ~Near(r.p[2], s[4], s[1]) \/ ~Near(r.p[3], s[5], s[1]) THEN "a share of the searches is misstated"
  ELSE "ok"

\* --- digests: {t:"md4", in, out} / {t:"md4x", st (digest bytes of M), tail, bits (8 LE bytes), out}
JMd4(r) == IF r.out = MD4(r.in) THEN "ok" ELSE "MD4 digest differs"
JMd4x(r) == LET st == << LE32At(r.st, 1), LE32At(r.st, 5), LE32At(r.st, 9), LE32At(r.st, 13) >> IN
            IF r.out = MD4Finish(st, r.tail, r.bits) THEN "ok" ELSE "MD4 digest of a long message differs"

Verdict(r) == CASE r.t = "sig" -> JSig(r) [] r.t = "wf" -> JWf(r) [] r.t = "match" -> JMatch(r)
                [] r.t = "dbytes" -> JDeltaBytes(r) [] r.t = "eq" -> JEq(r) [] r.t = "sym" -> JSym(r) [] r.t = "far" -> JFar(r)
                [] r.t = "patch" -> JPatch(r) [] r.t = "load" -> JLoad(r) [] r.t = "dstat" -> JDStat(r)
                [] r.t = "hdrs" -> JHdrs(r) [] r.t = "vpatch" -> JVPatch(r) [] r.t = "win" -> JWin(r) [] r.t = "vrt" -> JVRt(r) [] r.t = "farpatch" -> JFarPatch(r)
                [] r.t = "slackwf" -> JSlackWf(r) [] r.t = "rt" -> JRt(r) [] r.t = "mem" -> JMem(r)
                [] r.t = "md4" -> JMd4(r) [] r.t = "md4x" -> JMd4x(r)
                [] r.t = "sgstat" -> JSgStat(r) [] r.t = "mstat" -> JMStat(r) [] r.t = "ldstat" -> JLdStat(r) [] r.t = "iostat" -> JIoStat(r) [] r.t = "bigstat" -> JBigStat(r) [] r.t = "work" -> JWork(r) [] r.t = "longcopy" -> JLongCopy(r)

Init == rid \in DOMAIN Recs /\ verdict = "pending"
Next == /\ verdict = "pending"
        /\ verdict' = Verdict(Recs[rid])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"REJECT", rid, verdict'>>)
        /\ UNCHANGED rid
Spec == Init /\ [][Next]_vars
=============================================================================
