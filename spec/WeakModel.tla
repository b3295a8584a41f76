------------------------------ MODULE WeakModel ------------------------------
(***************************************************************************)
(* The incremental rolling checksums as state machines.  The window is a   *)
(* sequence of bytes; the accumulators are updated by the published        *)
(* recurrences; Agree says they always describe the window exactly as a    *)
(* computation from scratch would.  Explored exhaustively over a small     *)
(* set of bytes and window lengths.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Hashes, Words
CONSTANTS Bytes, MaxLen
VARIABLES win, roll, rk, mult
vars == <<win, roll, rk, mult>>
RKInv == << 39152, 2477 >>          \* 0x98f009ad, inverse of the multiplier
RKAdj == << 2064, 16932 >>          \* multiplier - 1, removes the seed
Small(n) == <<0, n>>
S16(n) == n % M16
\* s2, s1 as <<s2, s1>>
RollIn(r, b) == RollStep(r, b)
RollOut(r, b, n) == LET c == Mul16(n, b + 31)[2] IN << S16(r[1] + M16 - c), S16(r[2] + 2*M16 - b - 31) >>
RollRot(r, o, i, n) == LET s1 == S16(r[2] + M16 + i - o)  c == Mul16(n, o + 31)[2] IN << S16(r[1] + s1 + M16 - c), s1 >>
RKIn(h, b) == RKStep(h, b)
RKOut(h, m, b) == Sub32(h, Mul32(Mul32(m, RKInv), Add32(Small(b), RKAdj)))
RKRot(h, m, o, i) == Sub32(Add32(Mul32(h, RKMult), Small(i)), Mul32(m, Add32(Small(o), RKAdj)))
Init == win = <<>> /\ roll = <<0, 0>> /\ rk = <<0, 1>> /\ mult = <<0, 1>>
In(b) == /\ Len(win) < MaxLen
         /\ win' = Append(win, b) /\ roll' = RollIn(roll, b) /\ rk' = RKIn(rk, b) /\ mult' = Mul32(mult, RKMult)
Out == /\ win # <<>>
       /\ win' = Tail(win) /\ roll' = RollOut(roll, win[1], Len(win)) /\ rk' = RKOut(rk, mult, win[1]) /\ mult' = Mul32(mult, RKInv)
Rotate(b) == /\ win # <<>>
             /\ win' = Append(Tail(win), b) /\ roll' = RollRot(roll, win[1], b, Len(win)) /\ rk' = RKRot(rk, mult, win[1], b) /\ UNCHANGED mult
Reset == /\ win' = <<>> /\ roll' = <<0, 0>> /\ rk' = <<0, 1>> /\ mult' = <<0, 1>>
Next == Out \/ Reset \/ \E b \in Bytes : In(b) \/ Rotate(b)
Spec == Init /\ [][Next]_vars
Agree == roll = Rollsum(win) /\ rk = RabinKarp(win)
=============================================================================
