-------------------------------- MODULE Work --------------------------------
(* What a delta job moves: the scoop of scoop.c as rs_getinput() of delta.c
   uses it, for windows of any size and an output that may be full at any
   time. Data is scaled: M stands for the 64 KB of a miss. The work of the
   job is proportional to its data only if what it kept is moved rarely; for
   every byte consumed at most 2 + 2*b/M bytes are moved, and once what a
   window and a block hold, however the data comes.
   Keen says what a job does that puts its data together again at every
   call; the invariant fails for it (the check tries this).                 *)
EXTENDS Integers
CONSTANTS M, Bs, N, W, Keen

VARIABLES b,        \* block length
          next,     \* where the data in the scoop starts
          avail,    \* how much there is
          alloc,    \* size of the scoop
          win,      \* input given and not taken
          scanpos,  \* miss not yet emitted
          scanlen,  \* what the scan may look at
          given,    \* all input so far
          used,     \* bytes consumed by commands
          moved,    \* bytes moved within or between scoops
          pc
vars == <<b, next, avail, alloc, win, scanpos, scanlen, given, used, moved, pc>>

RECURSIVE Pow(_, _)
Pow(p, n) == IF p >= n THEN p ELSE Pow(2 * p, n)
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
Need == b + M

Init == /\ b \in Bs /\ next = 0 /\ avail = 0 /\ alloc = 0 /\ win = 0 /\ scanpos = 0 /\ scanlen = 0
        /\ given = 0 /\ used = 0 /\ moved = 0 /\ pc = "idle"

\* the application calls with a window that holds what was left and more
Call == /\ pc = "idle" /\ given < N
        /\ \E w \in 1 .. W : w <= N - given /\ win' = win + w /\ win' <= W /\ given' = given + w
        /\ pc' = "get"
        /\ UNCHANGED <<b, next, avail, alloc, scanpos, scanlen, used, moved>>
\* ... or only takes output
Again == /\ pc = "idle" /\ avail + win > scanpos + b
         /\ pc' = "get"
         /\ UNCHANGED <<b, next, avail, alloc, win, scanpos, scanlen, given, used, moved>>

Wanted == LET l == IF avail >= Need /\ avail > scanpos + b THEN avail ELSE avail + win IN Max(l, Need)

Get == /\ pc = "get"
       /\ LET len == Wanted IN
          IF avail = 0 /\ win >= len
          THEN /\ scanlen' = len /\ pc' = "scan"
               /\ UNCHANGED <<next, avail, alloc, win, moved>>
          ELSE IF avail < len /\ win > 0
          THEN LET grow == alloc < len
                   shift == next + len > alloc \/ Keen
                   n == Min(len - avail, win)
               IN /\ alloc' = IF grow THEN Pow(1, len) ELSE alloc
                  /\ next' = IF grow \/ shift THEN 0 ELSE next
                  /\ moved' = IF grow \/ shift THEN moved + avail ELSE moved
                  /\ avail' = avail + n /\ win' = win - n
                  /\ scanlen' = len
                  /\ pc' = IF avail + n >= len THEN "scan" ELSE "idle"
          ELSE /\ scanlen' = len /\ pc' = (IF avail >= len THEN "scan" ELSE "idle")
               /\ UNCHANGED <<next, avail, alloc, win, moved>>
       /\ UNCHANGED <<b, scanpos, given, used>>

\* n bytes go, from the scoop or directly from the window
Take(n) == /\ IF avail > 0 THEN /\ avail' = avail - n /\ next' = next + n /\ win' = win
                           ELSE /\ win' = win - n /\ UNCHANGED <<avail, next>>
           /\ used' = used + n /\ scanlen' = scanlen - n
Keep == UNCHANGED <<avail, next, win, used, scanlen>>

Miss == /\ pc = "scan" /\ scanpos + b < scanlen
        /\ IF scanpos >= M - 1 THEN Take(scanpos) /\ scanpos' = 1 /\ pc' \in {"scan", "idle"}
                               ELSE Keep /\ scanpos' = scanpos + 1 /\ pc' = "scan"
        /\ UNCHANGED <<b, alloc, given, moved>>
Match == /\ pc = "scan" /\ scanpos + b < scanlen
         /\ Take(scanpos + b) /\ scanpos' = 0
         /\ pc' \in {"scan", "idle"}                \* the output may be full
         /\ UNCHANGED <<b, alloc, given, moved>>
Stop == /\ pc = "scan" /\ scanpos + b >= scanlen
        /\ pc' = IF avail + win > scanlen THEN "get" ELSE "idle"
        /\ UNCHANGED <<b, next, avail, alloc, win, scanpos, scanlen, given, used, moved>>

Next == Call \/ Again \/ Get \/ Miss \/ Match \/ Stop
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
InScoop == /\ next >= 0 /\ avail >= 0 /\ win >= 0 /\ next + avail <= alloc
           /\ used + avail + win = given
\* (by M) what was moved is paid for by what was consumed
FewMoves == M * moved <= 2 * (M + b) * used + 2 * M * (Need + W)
=============================================================================
