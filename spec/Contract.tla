------------------------------- MODULE Contract -------------------------------
(***************************************************************************)
(* What a caller of rs_job_iter may rely on, in every call, whatever the   *)
(* implementation does inside.  c is a case: the job kind with its input   *)
(* and parameters:                                                         *)
(*   [kind |-> "sig", in, magic, bl, sl]     [kind |-> "load", in]         *)
(*   [kind |-> "patch", in, basis]           [kind |-> "slack", in]        *)
(*   [kind |-> "delta", in, blocks, bl, miss]  (matching by content)       *)
(*   [kind |-> "deltab", in, sig]              (matching by checksums)     *)
(* Large data is described by lengths only; its bytes are compared with a  *)
(* validated output outside TLC:                                           *)
(*   [kind |-> "big", olen, fin]   the job ends with fin and olen bytes    *)
(*   [kind |-> "bigsig", olen, fin, bl, sl]                                *)
(*   [kind |-> "bigpatch", olen, fin, cmds]   cmds: <<header length,       *)
(*        1 for literal or 0 for copy, data length>>                       *)
(***************************************************************************)
EXTENDS DeltaRef

RECURSIVE GreedyEq(_, _, _, _, _)
GreedyEq(bs, bl, new, i, ops) ==
  IF i > Len(new) THEN ops
  ELSE LET n == Min2(bl, Len(new) - i + 1)
           k == FirstIdx(bs, SubSeq(new, i, i + n - 1))
       IN IF k # 0 THEN GreedyEq(bs, bl, new, i + n, TLCEval(AddOp(ops, [k |-> "c", p |-> (k-1)*bl, n |-> n])))
          ELSE GreedyEq(bs, bl, new, i + 1, TLCEval(AddOp(ops, [k |-> "l", p |-> i - 1, n |-> 1])))
\* the output and the acceptable final results, functions of the case alone
RefOf(c) ==
   CASE c.kind = "sig"   -> [out |-> TLCEval(Signature(c.in, c.magic, c.bl, c.sl)), res |-> {DONE}]
     [] c.kind = "load"  -> [out |-> <<>>, res |-> LoadResults(c.in)]
     [] c.kind = "patch" -> LET p == PatchRun(c.in, c.basis) IN [out |-> p.out, res |-> PatchResults(p.st)]
     [] c.kind = "delta" -> [out |-> TLCEval(EncOps(GreedyEq(c.blocks, c.bl, c.in, 1, <<>>), c.in, 1, DeltaMagic, c.miss)), res |-> {DONE}]
     [] c.kind = "deltab" -> [out |-> TLCEval(EncDelta(Greedy(c.sig, c.in), c.in)), res |-> {DONE}]
     [] c.kind = "slack" -> [out |-> c.in, res |-> {DONE}]
     [] OTHER -> [out |-> <<>>, res |-> {c.fin}]
\* a slack delta may split its literals anyhow: it is right if it rebuilds the input
Big(c) == c.kind \in {"big", "bigsig", "bigpatch"}
OutLen(c) == IF Big(c) THEN c.olen ELSE Len(c.out)
OutRight(c, ref, out) == IF c.kind = "slack" THEN LET p == PatchRun(out, <<>>) IN p.st = "done" /\ p.out = c.in
                         ELSE out = ref.out

\* length of the output determined by the first n input bytes (end not announced)
RECURSIVE BigDet(_, _, _)
BigDet(cmds, k, n) ==       \* n bytes from the header of command k on
  IF k > Len(cmds) THEN 0
  ELSE LET h == cmds[k][1] IN
       IF n < h THEN 0
       ELSE IF cmds[k][2] = 0 THEN cmds[k][3] + BigDet(cmds, k + 1, n - h)
       ELSE Min2(n - h, cmds[k][3]) + (IF n - h < cmds[k][3] THEN 0 ELSE BigDet(cmds, k + 1, n - h - cmds[k][3]))
BigTotal(cmds) == 5 + FoldLeft(LAMBDA a, x : a + x[1] + (IF x[2] = 1 THEN x[3] ELSE 0), 0, cmds)
Determined(c, n) ==
  CASE c.kind = "sig" -> 12 + (n \div c.bl) * (4 + c.sl)
    [] c.kind = "patch" -> Len(PatchRun(SubSeq(c.in, 1, n), c.basis).out)
    [] c.kind = "bigsig" -> 12 + (n \div c.bl) * (4 + c.sl)
    [] c.kind = "bigpatch" -> BigDet(c.cmds, 1, n - 4)
    [] OTHER -> 0
MoreNeeded(c, n) == CASE c.kind = "patch" -> PatchRun(SubSeq(c.in, 1, n), c.basis).st = "need"
                      [] c.kind = "bigpatch" -> n < BigTotal(c.cmds)
                      [] OTHER -> TRUE

\* One call: pos input bytes were consumed and n output bytes delivered before;
\* the call was offered i input bytes, o bytes of space and flag e, it consumed
\* u, delivered m and returned r.
BoundsOk(i, o, u, m) == u \in 0..i /\ m \in 0..o
BlockedOk(c, pos, n, i, o, e, m) ==
  \/ m = o /\ c.kind # "load"          \* loading needs no output space
  \/ ~e /\ n + m >= Determined(c, pos + i) /\ MoreNeeded(c, pos + i)
=============================================================================
