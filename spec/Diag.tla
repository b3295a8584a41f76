-------------------------------- MODULE Diag --------------------------------
(***************************************************************************)
(* Diagnostics: a threshold, a sink, and messages with a severity (0 is    *)
(* the worst, 7 the least).  A message goes to the sink chosen at that     *)
(* moment, once, if its severity is within the threshold; nothing else     *)
(* goes anywhere.  got: what the sinks received, <<sink, severity>>.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANTS Levels, Sinks, MaxOps
VARIABLES level, sink, got, hist
vars == <<level, sink, got, hist>>
Sevs == 0..7
Init == level = 6 /\ sink = 1 /\ got = <<>> /\ hist = <<>>
SetLevel(l) == level' = l /\ UNCHANGED <<sink, got>> /\ hist' = Append(hist, <<1, l>>)
SetSink(s) == sink' = s /\ UNCHANGED <<level, got>> /\ hist' = Append(hist, <<2, s>>)
Passes(l, s, sev) == s # 0 /\ sev <= l
Log(sev) == /\ got' = IF Passes(level, sink, sev) THEN Append(got, <<sink, sev>>) ELSE got
            /\ UNCHANGED <<level, sink>> /\ hist' = Append(hist, <<3, sev>>)
Next == Len(hist) < MaxOps /\ ((\E l \in Levels : SetLevel(l)) \/ (\E s \in Sinks : SetSink(s)) \/ (\E v \in Sevs : Log(v)))
Spec == Init /\ [][Next]_vars
\* from the history alone: what must have arrived
RECURSIVE Want(_, _, _, _)
Want(h, l, s, acc) == IF h = <<>> THEN acc
  ELSE LET o == Head(h) IN
       IF o[1] = 1 THEN Want(Tail(h), o[2], s, acc) ELSE IF o[1] = 2 THEN Want(Tail(h), l, o[2], acc)
       ELSE Want(Tail(h), l, s, IF Passes(l, s, o[2]) THEN Append(acc, <<s, o[2]>>) ELSE acc)
Delivered == got = Want(hist, 6, 1, <<>>)
Emit == IF Len(hist') = MaxOps THEN PrintT(<<"HIST", hist'>>) ELSE TRUE

---------------------------------------------------------------------------
\* the text of a message
Severity(sev) == <<"EMERGENCY! ", "ALERT! ", "CRITICAL! ", "ERROR: ", "Warning: ", "", "", "">>[sev + 1]
Text(sev, fn, msg) == "librsync: " \o Severity(sev) \o (IF fn = "" THEN "" ELSE "(" \o fn \o ") ") \o msg \o "\n"
Whole == 900          \* texts up to this length are never cut
TextOk(full, t) == t = full \/ (Len(full) > Whole /\ Len(t) >= Whole /\ Len(t) <= Len(full) /\ SubSeq(full, 1, Len(t)) = t)
                   \/ (Len(full) > Whole /\ Len(t) >= Whole /\ Len(t) <= Len(full) /\ SubSeq(t, Len(t), Len(t)) = "\n" /\ SubSeq(full, 1, Len(t) - 1) = SubSeq(t, 1, Len(t) - 1))
Contains(t, x) == \E i \in 1..(Len(t) - Len(x) + 1) : SubSeq(t, i, i + Len(x) - 1) = x

\* the signature dump
Digit(n) == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>[n + 1]
RECURSIVE HexOf(_, _)
HexOf(b, acc) == IF b = <<>> THEN acc ELSE HexOf(Tail(b), acc \o Digit(Head(b) \div 16) \o Digit(Head(b) % 16))
RECURSIVE PadTo(_, _)
PadTo(t, n) == IF Len(t) >= n THEN t ELSE PadTo(" " \o t, n)
DumpHead(i) == "librsync: sum " \o PadTo(ToString(i), 6) \o ": weak="
DumpTail(strong) == ", strong=" \o HexOf(strong, "") \o "\n"
\* the rsync sum is kept in memory, and shown, in a scrambled form
DumpLineOk(t, i, weak, strong, roll) ==
  LET h == DumpHead(i)  e == DumpTail(strong) IN
  /\ Len(t) = Len(h) + 8 + Len(e) /\ SubSeq(t, 1, Len(h)) = h /\ SubSeq(t, Len(h) + 9, Len(t)) = e
  /\ roll \/ SubSeq(t, Len(h) + 1, Len(h) + 8) = HexOf(weak, "")
=============================================================================
