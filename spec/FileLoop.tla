------------------------------ MODULE FileLoop ------------------------------
(***************************************************************************)
(* The callback-driven loop with file buffers (rs_job_drive with           *)
(* rs_infilebuf_fill and rs_outfilebuf_drain), driving any job that obeys  *)
(* the contract of rs_job_iter.  Bytes are identified by their number, so  *)
(* that losing, repeating or reordering any of them is visible.            *)
(*                                                                         *)
(* The environment chooses short reads, and one read or write that fails;  *)
(* after a failed read the file may go on, fail again or look ended.       *)
(*                                                                         *)
(* The job emits the numbers 1..Total; number k is determined by the input *)
(* up to number k, the last one (the trailer) by the end of input.  It may *)
(* leave input with the caller when it blocks, but takes all of it when    *)
(* offered the same again.  In mode "early" it is over once it saw number  *)
(* Total - 1, without wanting the end of input (as a patch).               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxIn, MaxBuf, Faults
DONE == 0   BLOCKED == 1   IOERR == 100   JOBERR == 106
VARIABLES N, BI, BO, early,             \* the configuration
          fpos, ferr, gone,             \* input file: position, error flag, connection lost
          in, off, eof,                 \* window of the job into the input buffer: contents, offset
          took, left,                   \* input taken by the job; size of the window it last left behind
          ob, made,                     \* output buffer contents, output made so far
          wr, pc, res, jres, fault
vars == <<N, BI, BO, early, fpos, ferr, gone, in, off, eof, took, left, ob, made, wr, pc, res, jres, fault>>
conf == <<N, BI, BO, early>>
Ids(a, b) == [i \in 1..(b - a) |-> a + i]           \* a+1 .. b
Total == N + 1
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ N \in 0..MaxIn /\ BI \in 1..MaxBuf /\ BO \in 1..MaxBuf /\ early \in BOOLEAN
        /\ fpos = 0 /\ ferr = FALSE /\ gone = FALSE /\ in = <<>> /\ off = 0 /\ eof = FALSE
        /\ took = 0 /\ left = -1 /\ ob = <<>> /\ made = 0 /\ wr = 0 /\ pc = "fill" /\ res = -1 /\ jres = -1 /\ fault = FALSE
Stop(r) == pc' = "stop" /\ res' = r
\* outcomes of reading up to n bytes: <<count, end seen, error>>
Reads(n) == LET a == IF gone THEN 0 ELSE Min(n, N - fpos) IN
  { <<a, a < n, FALSE>> } \cup (IF Faults /\ ~fault THEN { <<j, FALSE, TRUE>> : j \in 0..Min(a, n - 1) } ELSE {})
Fill == /\ pc = "fill" /\ UNCHANGED <<conf, took, left, ob, made, wr, jres>>
  /\ IF eof \/ Len(in) > BI \div 2
     THEN pc' = "iter" /\ UNCHANGED <<fpos, ferr, gone, in, off, eof, res, fault>>
     ELSE \E x \in Reads(BI - Len(in)) :
       /\ fault' = (fault \/ x[3]) /\ ferr' = (ferr \/ x[3]) /\ gone' \in (IF x[3] THEN BOOLEAN ELSE {gone})
       /\ fpos' = fpos + x[1] /\ off' = 0 /\ in' = in \o Ids(fpos, fpos + x[1])
       /\ IF x[1] = 0 \/ ferr'
          THEN IF ~ferr' /\ x[2] THEN eof' = TRUE /\ pc' = "iter" /\ UNCHANGED res ELSE Stop(IOERR) /\ UNCHANGED eof
          ELSE pc' = "iter" /\ UNCHANGED <<eof, res>>
\* what the job can have made after taking everything up to input number p
Det(p) == IF early /\ p = N THEN Total ELSE IF eof /\ p = N THEN Total ELSE p
Room == IF ob = <<>> /\ wr = 0 /\ made = 0 /\ jres = -1 THEN 0 ELSE BO - Len(ob)     \* no buffer before the first drain
Iter == /\ pc = "iter" /\ UNCHANGED <<conf, fpos, ferr, gone, eof, wr, fault>>
  /\ \E u \in 0..Len(in), m \in 0..Room :
       LET p == took + u  full == m = Room  over == made + m = Total IN
       /\ in = Ids(took, took + Len(in))              \* else the property Continuous below is broken
       /\ made + m <= Det(p)
       /\ over => p = N \/ early
       \* blocked only for space, or for input with everything offered looked at
       /\ ~over => full \/ (~eof /\ (u = Len(in) \/ Len(in) # left))
       /\ took' = p /\ made' = made + m /\ ob' = ob \o Ids(made, made + m)
       /\ in' = SubSeq(in, u + 1, Len(in)) /\ off' = off + u
       /\ left' = IF full THEN -1 ELSE Len(in) - u
       /\ jres' = IF over THEN DONE ELSE BLOCKED
       /\ pc' = "drain" /\ UNCHANGED res
JobFails == /\ pc = "iter" /\ Stop(JOBERR) /\ jres' = JOBERR
            /\ UNCHANGED <<conf, fpos, ferr, gone, in, off, eof, took, left, ob, made, wr, fault>>
Drain == /\ pc = "drain" /\ UNCHANGED <<conf, fpos, ferr, gone, in, off, eof, took, left, made, jres>>
  /\ \/ /\ wr' = wr + Len(ob) /\ ob' = <<>> /\ UNCHANGED fault
        /\ IF jres = DONE THEN Stop(DONE) ELSE pc' = "fill" /\ UNCHANGED res
     \/ \E j \in 0..(Len(ob) - 1) :
        /\ Faults /\ ob # <<>> /\ wr' = wr + j /\ fault' = TRUE /\ Stop(IOERR) /\ UNCHANGED ob
Next == Fill \/ Iter \/ JobFails \/ Drain
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
---------------------------------------------------------------------------
Continuous == in = Ids(took, took + Len(in)) /\ ob = Ids(made - Len(ob), made) /\ (pc # "stop" => wr = made - Len(ob))
Buffers == off + Len(in) <= BI /\ Len(ob) <= BO
Truthful == pc = "stop" => /\ (res = DONE => ~fault /\ wr = Total /\ jres = DONE)
                           /\ (fault => res = IOERR)
                           /\ (jres = JOBERR => res = JOBERR)
                           /\ (~fault /\ jres # JOBERR => res = DONE)
Finishes == <>(pc = "stop")
=============================================================================
