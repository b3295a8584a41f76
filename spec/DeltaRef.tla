------------------------------ MODULE DeltaRef ------------------------------
(***************************************************************************)
(* The delta algorithm as a specification over bytes: greedy left-to-right *)
(* block matching by both checksums of the signature.                      *)
(*   sig : signature stream (bytes);  new : bytes                          *)
(* A delta's meaning is a sequence of ops [k |-> "c", p |-> pos, n |-> len]*)
(* or [k |-> "l", p |-> offset in new, n |-> len], in normal form: no two   *)
(* adjacent literals, no two adjacent copies that continue one another.    *)
(***************************************************************************)
EXTENDS Format

AddOp(ops, o) ==
  IF ops # <<>> /\ LET q == ops[Len(ops)] IN q.k = o.k /\ q.p + q.n = o.p
  THEN [ops EXCEPT ![Len(ops)].n = @ + o.n] ELSE Append(ops, o)

\* index (from 1) of the first entry equal to e, 0 if none
FirstIdx(entries, e) == LET s == {k \in DOMAIN entries : entries[k] = e} IN
                        IF s = {} THEN 0 ELSE CHOOSE k \in s : \A j \in s : k <= j

\* Weak sums first: the strong sum is only needed when some weak sum agrees.
MatchAt(entries, m, sl, w) ==
  LET wk == Weak(WeakOf(m), w) IN
  IF \A k \in DOMAIN entries : SubSeq(entries[k], 1, 4) # wk THEN 0
  ELSE FirstIdx(entries, wk \o SubSeq(Strong(StrongOf(m), w), 1, sl))

RECURSIVE GreedyFrom(_, _, _, _, _, _, _)
GreedyFrom(entries, m, bl, sl, new, i, ops) ==
  IF i > Len(new) THEN ops
  ELSE LET n == Min2(bl, Len(new) - i + 1)
           k == MatchAt(entries, m, sl, SubSeq(new, i, i + n - 1))
       IN IF k # 0 THEN GreedyFrom(entries, m, bl, sl, new, i + n, TLCEval(AddOp(ops, [k |-> "c", p |-> (k-1)*bl, n |-> n])))
          ELSE GreedyFrom(entries, m, bl, sl, new, i + 1, TLCEval(AddOp(ops, [k |-> "l", p |-> i - 1, n |-> 1])))
Greedy(sig, new) ==
  LET en == TLCEval(SigEntries(sig)) IN
  IF en = <<>> THEN (IF new = <<>> THEN <<>> ELSE << [k |-> "l", p |-> 0, n |-> Len(new)] >>)
  ELSE GreedyFrom(en, SigMagicOf(sig), SigBlockLen(sig), SigStrongLen(sig), new, 1, <<>>)

\* What the scan above does: << positions looked up, positions where a block matched, positions where
\* the strong checksum was needed >>
RECURSIVE ScanFrom(_, _, _, _, _, _, _)
ScanFrom(entries, m, bl, sl, new, i, a) ==
  IF i > Len(new) THEN a
  ELSE LET n == Min2(bl, Len(new) - i + 1)
           w == SubSeq(new, i, i + n - 1)
           wk == TLCEval(Weak(WeakOf(m), w))
           h == \E k \in DOMAIN entries : SubSeq(entries[k], 1, 4) = wk
           k == IF h THEN FirstIdx(entries, wk \o SubSeq(Strong(StrongOf(m), w), 1, sl)) ELSE 0
       IN ScanFrom(entries, m, bl, sl, new, IF k # 0 THEN i + n ELSE i + 1,
                   TLCEval(<< a[1] + 1, a[2] + (IF k # 0 THEN 1 ELSE 0), a[3] + (IF h THEN 1 ELSE 0) >>))
ScanCounts(sig, new) ==
  LET en == TLCEval(SigEntries(sig)) IN
  IF en = <<>> THEN <<0, 0, 0>> ELSE ScanFrom(en, SigMagicOf(sig), SigBlockLen(sig), SigStrongLen(sig), new, 1, <<0, 0, 0>>)

\* What the commands of an observed delta mean, in normal form
RECURSIVE MeaningFrom(_, _, _, _)
MeaningFrom(cmds, i, off, ops) ==
  IF i > Len(cmds) THEN ops
  ELSE LET c == cmds[i] IN
       IF c.kind = "lit"
       THEN MeaningFrom(cmds, i + 1, off + c.len.v, TLCEval(AddOp(ops, [k |-> "l", p |-> off, n |-> c.len.v])))
       ELSE MeaningFrom(cmds, i + 1, off + c.len.v, TLCEval(AddOp(ops, [k |-> "c", p |-> c.pos.v, n |-> c.len.v])))
Meaning(cmds) == MeaningFrom(cmds, 1, 0, <<>>)

\* Canonical byte encoding of ops (literal data split at MaxLiteral)
RECURSIVE EncOps(_, _, _, _, _)
EncOps(ops, new, i, acc, miss) ==
  IF i > Len(ops) THEN acc \o <<0>>
  ELSE LET o == ops[i] IN
       IF o.k = "c" THEN EncOps(ops, new, i + 1, acc \o EncCopy(o.p, o.n), miss)
       ELSE IF o.n <= miss THEN EncOps(ops, new, i + 1, acc \o EncLit(o.n) \o SubSeq(new, o.p + 1, o.p + o.n), miss)
       ELSE EncOps([ops EXCEPT ![i] = [k |-> "l", p |-> o.p + miss, n |-> o.n - miss]], new, i,
                   acc \o EncLit(miss) \o SubSeq(new, o.p + 1, o.p + miss), miss)
EncDelta(ops, new) == EncOps(ops, new, 1, DeltaMagic, MaxLiteral)
=============================================================================
