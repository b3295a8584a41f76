------------------------------ MODULE StreamImpl ------------------------------
(***************************************************************************)
(* The streaming machine behind rs_job_iter, modelled at the granularity   *)
(* of the code: the scoop (input carried between calls), the tube (output  *)
(* queued between calls: a write buffer and an outstanding copy of input), *)
(* and the state functions of the four job kinds.  One transition is one   *)
(* call with some input window, output window and end-of-input flag.       *)
(*                                                                         *)
(* Checked here: the contract of Contract below, and that the bytes        *)
(* delivered and the result are those of the reference specifications      *)
(* (Format, greedy matching), for every sequence of windows.               *)
(*                                                                         *)
(* The schedule leading through every transition is printed (EmitT, used   *)
(* as action constraint); these are replayed on the real library.          *)
(***************************************************************************)
EXTENDS Contract, IOUtils, Json, FiniteSets

Input == JsonDeserialize(IOEnv.CASES)
Cases == Input.cases     \* sequence of records: kind, in, (bl, sl, magic | basis, k | blocks, bl)
InWin == Input.inwin     \* window sizes to choose from; -1 = all that is left
OutWin == Input.outwin
LOOK == Input.look       \* MAX_DELTA_CMD, scaled down; more than MAX_MISS_LEN (the case's miss), as in the code

RUNNING == 2
INTERNAL == 107

---------------------------------------------------------------------------
VARIABLE ref             \* what the reference says about the case
\* checksums of block k as written to the signature (their values are C05's business)
SumOf(c, k) == SubSeq(ref.out, 13 + (k - 1)*(4 + c.sl), 12 + k*(4 + c.sl))

---------------------------------------------------------------------------
(* The machine.  s: st statefn; base: input consumed by the state          *)
(* functions; pos: input taken from the caller (pos - base in the scoop);  *)
(* w: write buffer; cl: outstanding copy; out: delivered output;           *)
(* ai, ao, eof: what is left of the current windows.                       *)
Start(i) == [c |-> i, st |-> "start", base |-> 0, pos |-> 0, w |-> <<>>, cl |-> 0, out |-> <<>>,
             op |-> 0, p1 |-> 0, bpos |-> 0, blen |-> 0,
             scan |-> 0, slen |-> 0, cnt |-> 0, n |-> 0, ai |-> 0, ao |-> 0, eof |-> FALSE]
In(s) == Cases[s.c].in
Avail(s) == (s.pos - s.base) + s.ai
Scooped(s) == s.pos - s.base
\* rs_scoop_readahead
Readahead(s, len) ==
  IF Scooped(s) = 0 /\ s.ai >= len THEN [s |-> s, r |-> DONE]
  ELSE LET t == IF Scooped(s) < len /\ s.ai > 0 THEN Min2(len - Scooped(s), s.ai) ELSE 0
           s1 == [s EXCEPT !.pos = @ + t, !.ai = @ - t]
       IN [s |-> s1, r |-> IF Scooped(s1) >= len THEN DONE ELSE IF s.eof THEN ENDED ELSE BLOCKED]
Advance(s, n) == IF Scooped(s) > 0 THEN [s EXCEPT !.base = @ + n]
                 ELSE [s EXCEPT !.base = @ + n, !.pos = @ + n, !.ai = @ - n]
Read(s, len) == LET r == Readahead(s, len) IN IF r.r = DONE THEN [s |-> Advance(r.s, len), r |-> DONE] ELSE r
\* the n bytes just read
Got(s, n) == SubSeq(In(s), s.base - n + 1, s.base)
\* rs_tube_catchup
Catchup(s) ==
  LET n == Min2(Len(s.w), s.ao)
      s1 == [s EXCEPT !.out = @ \o SubSeq(s.w, 1, n), !.w = SubSeq(s.w, n + 1, Len(s.w)), !.ao = @ - n]
  IN IF s1.w # <<>> THEN [s |-> s1, r |-> BLOCKED]
     ELSE IF s1.cl = 0 THEN [s |-> s1, r |-> DONE]
     ELSE LET m == Min2(s1.cl, Min2(Avail(s1), s1.ao))
              b == s1.base + m
              s2 == [s1 EXCEPT !.out = @ \o SubSeq(In(s1), s1.base + 1, b), !.base = b, !.ao = @ - m, !.cl = @ - m,
                               !.pos = IF b > s1.pos THEN b ELSE @, !.ai = IF b > s1.pos THEN @ - (b - s1.pos) ELSE @]
          IN [s |-> s2, r |-> IF s2.cl = 0 THEN DONE ELSE IF Avail(s2) = 0 /\ s2.eof THEN ENDED ELSE BLOCKED]
Run(s) == [s |-> s, r |-> RUNNING]
Fail(s, r) == [s |-> s, r |-> r]

\* ---- signature
SigStep(s) == LET c == Cases[s.c] IN
  IF s.st = "start" THEN Run([s EXCEPT !.w = @ \o SigHeader(c.magic, c.bl, c.sl), !.st = "gen"])
  ELSE LET a == Read(s, c.bl)
           b == IF a.r # ENDED THEN a
                ELSE IF Avail(a.s) > 0 THEN Read(a.s, Avail(a.s)) ELSE [s |-> a.s, r |-> ENDED]
       IN IF b.r = ENDED THEN Fail(b.s, DONE)
          ELSE IF b.r # DONE THEN b
          ELSE Run([b.s EXCEPT !.w = @ \o SumOf(c, s.n + 1), !.n = @ + 1])
\* ---- signature loading
LoadStep(s) ==
  CASE s.st = "start" -> LET a == Read(s, 4) IN IF a.r # DONE THEN a ELSE Run([a.s EXCEPT !.st = "bl"])
    [] s.st = "bl"    -> LET a == Read(s, 4) IN IF a.r # DONE THEN a
                         ELSE LET b == Got(a.s, 4) IN IF b[1] >= 128 \/ b = <<0,0,0,0>> THEN Fail(a.s, CORRUPT) ELSE Run([a.s EXCEPT !.st = "sl"])
    [] s.st = "sl"    -> LET a == Read(s, 4) IN IF a.r # DONE THEN a
                         ELSE LET b == Got(a.s, 4)  m == SubSeq(In(s), 1, 4) IN
                              IF b[1] # 0 \/ b[2] # 0 \/ b[3] # 0 \/ b[4] = 0 \/ b[4] > 32 THEN Fail(a.s, CORRUPT)
                              ELSE IF ~KnownSigMagic(m) THEN Fail(a.s, BADMAGIC)
                              ELSE IF b[4] > MaxStrong(m) THEN Fail(a.s, PARAM)
                              ELSE Run([a.s EXCEPT !.st = "weak", !.p1 = b[4]])
    [] s.st = "weak"  -> LET a == Read(s, 4) IN
                         IF a.r = ENDED /\ Avail(a.s) = 0 THEN Fail(a.s, DONE)
                         ELSE IF a.r # DONE THEN a ELSE Run([a.s EXCEPT !.st = "strong"])
    [] s.st = "strong" -> LET a == Read(s, s.p1) IN IF a.r # DONE THEN a ELSE Run([a.s EXCEPT !.st = "weak", !.n = @ + 1])
\* ---- patch.  Numbers beyond the model's integers are clamped to Huge.
Huge == 1000000
Val(x) == IF x.big THEN Huge ELSE x.v
ParamLen(op) == IF op \in 65..68 THEN WOf(op - 65) ELSE IF op \in 69..84 THEN WOf((op-69) \div 4) + WOf((op-69) % 4) ELSE 0
PatchStep(s) == LET c == Cases[s.c] IN
  CASE s.st = "start" -> LET a == Read(s, 4) IN IF a.r # DONE THEN a
                         ELSE IF Got(a.s, 4) # DeltaMagic THEN Fail(a.s, BADMAGIC) ELSE Run([a.s EXCEPT !.st = "cmd"])
    [] s.st = "cmd"   -> LET a == Read(s, 1) IN IF a.r # DONE THEN a
                         ELSE LET op == Got(a.s, 1)[1] IN
                              Run([a.s EXCEPT !.op = op, !.st = IF ParamLen(op) > 0 THEN "params" ELSE "run", !.n = a.s.base])
    [] s.st = "params" -> LET a == Read(s, ParamLen(s.op)) IN IF a.r # DONE THEN a ELSE Run([a.s EXCEPT !.st = "run"])
    [] s.st = "run"   -> LET cm == CmdAt(In(s), s.n) IN
         (CASE cm.kind = "end" -> Fail(s, DONE)
           [] cm.kind = "bad" -> Fail(s, CORRUPT)
           [] cm.kind = "lit" -> IF Zero(cm.len) \/ cm.len.neg THEN Fail(s, CORRUPT)
                                 ELSE Run([s EXCEPT !.cl = Val(cm.len), !.st = "cmd"])
           [] cm.kind = "copy" -> IF Zero(cm.len) \/ cm.len.neg \/ cm.pos.neg THEN Fail(s, CORRUPT)
                                  ELSE Run([s EXCEPT !.bpos = Val(cm.pos), !.blen = Val(cm.len), !.st = "copying"]))
    [] s.st = "copying" ->
         IF s.ao = 0 THEN Fail(s, BLOCKED)
         ELSE IF s.bpos >= Len(c.basis) THEN Fail(s, ENDED)
         ELSE LET m == Min2(Min2(s.ao, s.blen), Min2(Len(c.basis) - s.bpos, c.k)) IN
              Run([s EXCEPT !.out = @ \o SubSeq(c.basis, s.bpos + 1, s.bpos + m), !.ao = @ - m, !.bpos = @ + m, !.blen = @ - m,
                            !.st = IF s.blen = m THEN "cmd" ELSE "copying"])
\* ---- delta
ProcMatch(s) == Catchup([Advance(s, s.scan) EXCEPT !.slen = @ - s.scan, !.scan = 0])
ProcMiss(s)  == Catchup([s EXCEPT !.cl = s.scan, !.slen = @ - s.scan, !.scan = 0])
AppendFlush(s) ==
  IF s.blen > 0 THEN ProcMatch([s EXCEPT !.w = @ \o EncCopy(s.bpos, s.blen), !.blen = 0])
  ELSE IF s.scan > 0 THEN ProcMiss([s EXCEPT !.w = @ \o EncLit(s.scan)])
  ELSE [s |-> s, r |-> DONE]
AppendMatch(s, p, n) ==
  IF s.blen > 0 /\ s.bpos + s.blen = p
  THEN ProcMatch([s EXCEPT !.blen = @ + n, !.scan = @ + n])
  ELSE LET a == AppendFlush(s)
           t == [a.s EXCEPT !.bpos = p, !.blen = n, !.scan = @ + n]
       IN IF a.r = DONE THEN ProcMatch(t) ELSE [s |-> t, r |-> a.r]
AppendMiss(s, n) ==
  LET a == IF s.blen > 0 \/ s.scan >= Cases[s.c].miss THEN AppendFlush(s) ELSE [s |-> s, r |-> DONE]
  IN [s |-> [a.s EXCEPT !.scan = @ + n], r |-> a.r]
GetInput(s) ==
  LET need == Cases[s.c].bl + LOOK
      has == IF Scooped(s) >= need /\ Scooped(s) > s.scan + Cases[s.c].bl THEN Scooped(s) ELSE Avail(s)
      len == IF has < need /\ ~s.eof THEN need ELSE has
      a == Readahead(s, len)
  IN [s |-> [a.s EXCEPT !.slen = len], r |-> a.r]
FindMatch(s) == LET c == Cases[s.c]
                    n == IF s.cnt = 0 THEN Min2(c.bl, s.slen - s.scan) ELSE s.cnt
                    k == FirstIdx(c.blocks, SubSeq(In(s), s.base + s.scan + 1, s.base + s.scan + n))
                IN [k |-> k, n |-> n]
RECURSIVE ScanLoop(_, _, _)
ScanLoop(s, r, flush) ==
  LET c == Cases[s.c]
      go == r = DONE /\ (IF flush THEN s.scan < s.slen ELSE s.scan + c.bl < s.slen)
  IN IF ~go THEN [s |-> s, r |-> r]
     ELSE LET f == FindMatch(s) IN
          IF f.k # 0 THEN LET a == AppendMatch([s EXCEPT !.cnt = 0], (f.k - 1)*c.bl, f.n) IN ScanLoop(TLCEval(a.s), a.r, flush)
          ELSE LET a == AppendMiss([s EXCEPT !.cnt = IF flush THEN f.n - 1 ELSE f.n], 1) IN ScanLoop(TLCEval(a.s), a.r, flush)
DeltaStep(s) ==
  CASE s.st = "start" -> Run([s EXCEPT !.w = @ \o DeltaMagic, !.st = IF Cases[s.c].kind = "slack" THEN "slack" ELSE "scan"])
    [] s.st \in {"scan", "flush"} ->
         LET a == Catchup(s)
             b == IF a.r = DONE THEN GetInput(a.s) ELSE a
             d == IF b.r = DONE THEN ScanLoop(b.s, DONE, s.st = "flush") ELSE b
         IN IF b.r # DONE THEN b
            ELSE IF d.r # DONE THEN d
            ELSE IF s.st = "scan" THEN IF Avail(d.s) > d.s.slen THEN Run(d.s)       \* input not taken yet
                                  ELSE IF d.s.eof THEN Run([d.s EXCEPT !.st = "flush"]) ELSE Fail(d.s, BLOCKED)
            ELSE LET e == AppendFlush(d.s)  t == [e.s EXCEPT !.st = "end"] IN
                 IF e.r = DONE THEN Run(t) ELSE [s |-> t, r |-> e.r]
    [] s.st = "end" -> Fail([s EXCEPT !.w = @ \o <<0>>], DONE)
    [] s.st = "slack" -> IF Avail(s) > 0 THEN Run([s EXCEPT !.w = @ \o EncLit(Avail(s)), !.cl = Avail(s)])
                         ELSE IF s.eof THEN Run([s EXCEPT !.st = "end"]) ELSE Fail(s, BLOCKED)
Step(s) == LET k == Cases[s.c].kind IN
  CASE k = "sig" -> SigStep(s) [] k = "load" -> LoadStep(s) [] k = "patch" -> PatchStep(s) [] OTHER -> DeltaStep(s)
\* rs_job_work
RECURSIVE Work(_)
Work(s) ==
  LET a == Catchup(s) IN
  IF a.r # DONE THEN a
  ELSE IF a.s.st = "none" THEN a
  ELSE LET b == Step(a.s) IN
       IF b.r = DONE THEN Work(TLCEval([b.s EXCEPT !.st = "none"]))
       ELSE IF b.r = RUNNING THEN Work(TLCEval(b.s)) ELSE b
\* rs_job_iter: i, o, e are the windows
Iter(s, i, o, e) ==
  LET a == Work([s EXCEPT !.ai = i, !.ao = o, !.eof = e])
      used == i - a.s.ai   made == o - a.s.ao
      quiet == a.r = DONE \/ (a.r = BLOCKED /\ Cases[s.c].kind # "patch")
      r == IF quiet /\ used = 0 /\ made = 0 /\ i > 0 /\ o > 0 THEN INTERNAL ELSE a.r
  IN [s |-> [a.s EXCEPT !.ai = 0, !.ao = 0, !.eof = FALSE], used |-> used, made |-> made, res |-> r]

VARIABLES s, last, eofd, fin, hist
vars == <<s, last, eofd, fin, hist, ref>>
View == <<s, eofd, fin>>
Init == /\ s \in { Start(i) : i \in DOMAIN Cases }
        /\ last = <<>> /\ eofd = FALSE /\ fin = -1 /\ hist = <<>>
        /\ ref = TLCEval(RefOf(Cases[s.c]))
Left == Len(In(s)) - s.pos
Windows == { IF w < 0 \/ w > Left THEN Left ELSE w : w \in {InWin[k] : k \in DOMAIN InWin} }
Call(i, o, e) ==
  LET r == TLCEval(Iter(s, i, o, e)) IN
  /\ s' = r.s
  /\ last' = [i |-> i, o |-> o, e |-> e, used |-> r.used, made |-> r.made, res |-> r.res, pos |-> s.pos]
  /\ eofd' = e
  /\ fin' = IF r.res = BLOCKED THEN -1 ELSE r.res
  /\ hist' = Append(hist, <<i, o, IF e THEN 1 ELSE 0>>)
  /\ UNCHANGED ref
Next == /\ fin = -1
        /\ \E o \in {OutWin[k] : k \in DOMAIN OutWin} :
              \/ eofd /\ Call(Left, o, TRUE)
              \/ ~eofd /\ \E i \in Windows : Call(i, o, FALSE)
              \/ ~eofd /\ Call(Left, o, TRUE)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Case == Cases[s.c]
\* C02: only correct bytes, and at the end all of them with the right result
OutputRight ==
  /\ (fin # -1 => fin \in ref.res)
  /\ Case.kind # "slack" => IsPrefixOf(s.out, ref.out)
  /\ (fin # -1 /\ (Case.kind # "slack" \/ fin = DONE)) => OutRight(Case, ref, s.out)
\* C03 at this level: windows are respected and nothing is lost
Bounds == last # <<>> => BoundsOk(last.i, last.o, last.used, last.made) /\ s.base <= s.pos /\ s.pos <= Len(In(s))
\* C04
BlockedRight == (last # <<>> /\ last.res = BLOCKED) =>
  BlockedOk(Case, last.pos, Len(s.out) - last.made, last.i, last.o, last.e, last.made)
\* C04: from any point, supplying everything and a little space finishes in bounded time
RECURSIVE Drain(_, _, _)
Drain(x, o, n) == IF n = 0 THEN FALSE
  ELSE LET r == TLCEval(Iter(x, Len(In(x)) - x.pos, o, TRUE)) IN
       IF r.res # BLOCKED THEN r.res \in ref.res ELSE Drain(r.s, o, n - 1)
Finishes == fin = -1 => Drain(s, 3, (Len(ref.out) + 3 * Len(In(s)) + 9) \div 3 + 2)
\* every transition: the schedule that leads to it, for replay on the real code
EmitT == PrintT(<<"SCHED", s.c, hist'>>)
=============================================================================
