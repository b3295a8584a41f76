------------------------------ MODULE SymDelta ------------------------------
(***************************************************************************)
(* The delta algorithm over symbolic data, for inputs of any size.  Data   *)
(* are sequences of pieces <<id, off, len>>: bytes off..off+len-1 of an    *)
(* unbounded random string named id; two pieces are equal bytes iff they   *)
(* are the same piece.  Block matching is then equality of normal forms.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

SMin(a, b) == IF a < b THEN a ELSE b
SMax(a, b) == IF a > b THEN a ELSE b
PLen(ps) == FoldLeft(LAMBDA a, p : a + p[3], 0, ps)
\* normal form: contiguous neighbours merged
Norm(ps) == FoldLeft(LAMBDA a, p :
    IF p[3] = 0 THEN a
    ELSE IF a # <<>> /\ LET q == a[Len(a)] IN q[1] = p[1] /\ q[2] + q[3] = p[2]
    THEN [a EXCEPT ![Len(a)] = <<@[1], @[2], @[3] + p[3]>>] ELSE Append(a, p), <<>>, ps)
\* bytes from..from+n-1 (from 0) of ps
Cut(ps, from, n) ==
  Norm(FoldLeft(LAMBDA a, p :
      LET lo == SMax(from, a.at)  hi == SMin(from + n, a.at + p[3]) IN
      [at |-> a.at + p[3],
       out |-> IF lo < hi THEN Append(a.out, <<p[1], p[2] + (lo - a.at), hi - lo>>) ELSE a.out],
    [at |-> 0, out |-> <<>>], ps).out)
SBlocks(basis, bl) == LET n == PLen(basis) IN
  TLCEval([k \in 1..((n + bl - 1) \div bl) |-> TLCEval(Cut(basis, (k-1)*bl, SMin(bl, n - (k-1)*bl)))])
\* start offset of every piece
Starts(ps) == FoldLeft(LAMBDA a, p : Append(a, a[Len(a)] + p[3]), <<0>>, ps)
\* positions of new at which some block could start
Candidates(blocks, new) ==
  LET st == Starts(new) IN
  UNION { { st[j] + (b[1][2] - new[j][2]) : j \in { j \in DOMAIN new : new[j][1] = b[1][1] /\ b[1][2] >= new[j][2]
                                                          /\ b[1][2] < new[j][2] + new[j][3] } }
          : b \in { blocks[k] : k \in DOMAIN blocks } }
SFirst(blocks, w) == LET s == { k \in DOMAIN blocks : blocks[k] = w } IN
                     IF s = {} THEN 0 ELSE CHOOSE k \in s : \A j \in s : k <= j
\* <<position, block>> of every match
SMatches(basis, bl, new) ==
  LET bs == SBlocks(basis, bl)  n == PLen(new)  cs == TLCEval(Candidates(bs, new)) IN
  { m \in { <<q, SFirst(bs, Cut(new, q, SMin(bl, n - q)))>> : q \in cs } : m[2] # 0 }
SAdd(ops, o) ==
  IF o.n = 0 THEN ops
  ELSE IF ops # <<>> /\ LET q == ops[Len(ops)] IN q.k = o.k /\ q.p + q.n = o.p
  THEN [ops EXCEPT ![Len(ops)].n = @ + o.n] ELSE Append(ops, o)
\* greedy: sort the matches, skip those that start before the covered end
SGreedy(basis, bl, new) ==
  LET n == PLen(new)
      ms == SortSeq(SetToSeq(SMatches(basis, bl, new)), LAMBDA a, b : a[1] < b[1])
      r == FoldLeft(LAMBDA a, m :
             IF m[1] < a.at THEN a
             ELSE LET w == SMin(bl, n - m[1]) IN
                  [at |-> m[1] + w,
                   ops |-> SAdd(SAdd(a.ops, [k |-> "l", p |-> a.at, n |-> m[1] - a.at]),
                                [k |-> "c", p |-> (m[2]-1)*bl, n |-> w])],
             [at |-> 0, ops |-> <<>>], ms)
  IN SAdd(r.ops, [k |-> "l", p |-> r.at, n |-> n - r.at])
=============================================================================
