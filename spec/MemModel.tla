------------------------------ MODULE MemModel ------------------------------
(***************************************************************************)
(* C22: what a job holds of its input, whatever windows it is given.       *)
(* StreamImpl under callers whose windows are never larger than MaxWin:    *)
(* the input is handed over piece by piece and its end is announced with   *)
(* the last piece.  The number of bytes taken but not yet accounted for in *)
(* the output is bounded by what one step of the job has to look at, plus  *)
(* one window.                                                             *)
(***************************************************************************)
EXTENDS StreamImpl
MaxWin == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, InWin)
MNext == /\ fin = -1
         /\ \E o \in {OutWin[k] : k \in DOMAIN OutWin} :
               \/ eofd /\ Call(Left, o, TRUE)
               \/ ~eofd /\ \E i \in Windows : Call(i, o, FALSE)
               \/ ~eofd /\ Left <= MaxWin /\ Call(Left, o, TRUE)
MSpec == Init /\ [][MNext]_vars
Max2(a, b) == IF a > b THEN a ELSE b
Unit(c) == CASE c.kind = "sig" -> c.bl
             [] c.kind = "load" -> 64
             [] c.kind = "patch" -> 16
             [] c.kind = "delta" -> c.bl + LOOK
             [] OTHER -> 0
\* a job that has to look at one piece at a time takes no more than it needs;
\* the search for matches takes whole windows once it has begun to collect
HeldBound == Scooped(s) <= Unit(Case) + (IF Case.kind = "delta" THEN MaxWin ELSE 0)
\* what waits to be written is at most one header
WaitBound == Len(s.w) <= 12 + 64
=============================================================================
