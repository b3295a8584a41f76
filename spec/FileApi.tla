------------------------------ MODULE FileApi ------------------------------
(***************************************************************************)
(* The file helpers of the library: opening with protection of existing    *)
(* files and "-" for standard streams, closing, sizes, and reading basis   *)
(* data at a position.  A small file system, handles, and what the         *)
(* application does with them.                                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Min2(a, b) == IF a < b THEN a ELSE b
\* names: 0 no name, 1 "-", 2 "", 3 f, 4 n (absent), 5 a directory, 6 a name in
\* a directory that is not there, 7 an empty file, 8 a link to f; 9, 10 are what
\* standard input and output are connected to
NONE == <<-1>>  DIRE == <<-2>>      \* instead of contents
Fs0 == [i \in 3..10 |-> CASE i = 3 -> <<11, 12, 13, 14, 15>> [] i = 5 -> DIRE [] i \in {4, 6} -> NONE [] i = 9 -> <<21, 22, 23>> [] OTHER -> <<>>]
Real(n) == IF n = 8 THEN 3 ELSE n
IsFile(fs, n) == fs[n] # NONE /\ fs[n] # DIRE
\* modes: 0 "rb"  1 "wb"  2 "w+b"  3 "r+b"
Creates(m) == m \in {1, 2}
Reads(m) == m \in {0, 2, 3}
Writes(m) == m # 0
\* the outcome of opening: "in" "out" "file", or "exit" with the files as they were
Outcome(fs, n, m, force) ==
  IF n <= 2 THEN (IF Creates(m) THEN "out" ELSE "in")
  ELSE LET x == fs[Real(n)] IN
       IF Creates(m) THEN (IF n = 6 \/ x = DIRE \/ (x # NONE /\ ~force) THEN "exit" ELSE "file")
       ELSE IF x = NONE \/ (x = DIRE /\ m # 0) THEN "exit"
       ELSE "file"
After(fs, n, m, o) == IF o = "file" /\ Creates(m) THEN [fs EXCEPT ![Real(n)] = <<>>] ELSE fs
Handle(n, m, o) == [n |-> IF o = "in" THEN 9 ELSE IF o = "out" THEN 10 ELSE Real(n), std |-> o # "file",
                    rd |-> o = "in" \/ (o = "file" /\ Reads(m)), wr |-> o = "out" \/ (o = "file" /\ Writes(m)), open |-> TRUE, err |-> FALSE]
\* bytes written by step k of a history
Fresh(k, c) == [i \in 1..c |-> 32 + 8 * k + i]
DONE == 0  IOERR == 100  ENDED == 103
\* may reading at pos, up to len bytes, end like this?
CopyOk(fs, h, pos, len, res, got) ==
  IF ~h.rd \/ pos < 0 \/ ~IsFile(fs, h.n) THEN res = IOERR
  ELSE IF pos >= Len(fs[h.n]) THEN res = ENDED \/ (h.err /\ res = IOERR)
  ELSE res = DONE /\ Len(got) >= 1 /\ Len(got) <= Min2(len, Len(fs[h.n]) - pos) /\ got = SubSeq(fs[h.n], pos + 1, pos + Len(got))
SizeOf(fs, h) == IF IsFile(fs, h.n) THEN Len(fs[h.n]) ELSE -1

VARIABLES fs, hs, over, hist
vars == <<fs, hs, over, hist>>
CONSTANTS MaxOps, Names, Modes, Poss, Lens    \* positions are one too big
Init == fs = Fs0 /\ hs = <<>> /\ over = FALSE /\ hist = <<>>
Can == ~over /\ Len(hist) < MaxOps
Rec(x) == hist' = Append(hist, x)
Open == \E n \in Names, m \in Modes, f \in {0, 1} :
  /\ Can /\ Len(hs) < 3
  /\ LET o == Outcome(fs, n, m, f = 1) IN
     /\ over' = (o = "exit") /\ fs' = After(fs, n, m, o)
     /\ hs' = IF o = "exit" THEN hs ELSE Append(hs, Handle(n, m, o))
  /\ Rec(<<1, n, m, f>>)
Write == \E k \in DOMAIN hs, c \in {1, 3} :
  /\ Can /\ hs[k].open /\ hs[k].wr /\ IsFile(fs, hs[k].n)
  /\ fs' = [fs EXCEPT ![hs[k].n] = @ \o Fresh(Len(hist), c)] /\ Rec(<<2, k, c, 0>>) /\ UNCHANGED <<hs, over>>
\* closing a standard stream leaves it open
Close == \E k \in DOMAIN hs : Can /\ hs[k].open /\ hs' = [hs EXCEPT ![k].open = hs[k].std] /\ Rec(<<3, k, 0, 0>>) /\ UNCHANGED <<fs, over>>
Size == \E k \in DOMAIN hs : Can /\ hs[k].open /\ Rec(<<4, k, 0, 0>>) /\ UNCHANGED <<fs, hs, over>>
Copy == \E k \in DOMAIN hs, p \in Poss, l \in Lens : Can /\ hs[k].open /\ Rec(<<5, k, p - 1, l>>) /\ UNCHANGED <<fs, hs, over>>
Next == Open \/ Write \/ Close \/ Size \/ Copy
Spec == Init /\ [][Next]_vars
\* without force nothing that was there is ever lost: contents only grow
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Forced == \E j \in DOMAIN hist : hist[j][1] = 1 /\ hist[j][4] = 1
Kept == ~Forced => \A n \in DOMAIN Fs0 : Fs0[n] # NONE => Prefix(Fs0[n], fs[n])
\* what is opened is there, and standard streams stay
There == \A k \in DOMAIN hs : fs[hs[k].n] # NONE /\ (hs[k].std => hs[k].open)
Emit == IF Len(hist') = MaxOps \/ over' THEN PrintT(<<"HIST", hist'>>) ELSE TRUE
=============================================================================
