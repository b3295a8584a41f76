------------------------------- MODULE HtModel -------------------------------
(***************************************************************************)
(* The block index: open addressing with triangular probing over a power   *)
(* of two of slots, a one-hash filter on the upper hash bits, hash value   *)
(* zero stored as all ones, one slot always kept free.  Refinement of the  *)
(* abstract index: `log`, the entries in the order of their insertion.     *)
(* A hash is <<hi, lo>>: lo selects the slot, hi the filter bit.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Size, His, Los, Classes       \* Size a power of two
VARIABLES log, slot, filter, full       \* full: the last insertion was refused
vars == <<log, slot, filter, full>>
Ones == <<Size - 1, Size - 1>>
Norm(h) == IF h = <<0, 0>> THEN Ones ELSE h
Probe(h, n) == ((h[2] % Size) + ((n * (n + 1)) \div 2)) % Size       \* n-th slot of the chain
RECURSIVE FreeAt(_, _), FindAt(_, _, _)
FreeAt(h, n) == IF slot[Probe(h, n)] = 0 THEN Probe(h, n) ELSE FreeAt(h, n + 1)
FindAt(h, c, n) == LET e == slot[Probe(h, n)] IN
   IF e = 0 THEN 0 ELSE IF Norm(log[e].h) = h /\ log[e].c = c THEN e ELSE FindAt(h, c, n + 1)
ImplFind(h, c) == IF Norm(h)[1] \notin filter THEN 0 ELSE FindAt(Norm(h), c, 0)
Hashes == His \X Los
Init == log = <<>> /\ slot = [i \in 0..(Size-1) |-> 0] /\ filter = {} /\ full = FALSE
Add(h, c) ==
  IF Len(log) + 1 = Size THEN full' = TRUE /\ UNCHANGED <<log, slot, filter>>
  ELSE /\ log' = Append(log, [h |-> h, c |-> c])
       /\ slot' = [slot EXCEPT ![FreeAt(Norm(h), 0)] = Len(log) + 1]
       /\ filter' = filter \cup {Norm(h)[1]} /\ full' = FALSE
Next == ~full /\ \E h \in Hashes, c \in Classes : Add(h, c)
Spec == Init /\ [][Next]_vars
\* the abstract answer
Matches(h, c) == {k \in DOMAIN log : log[k].h = h /\ log[k].c = c}
AbsFind(h, c) == IF Matches(h, c) = {} THEN 0 ELSE CHOOSE k \in Matches(h, c) : \A j \in Matches(h, c) : k <= j
\* zero and all ones share a representation
Alias(h) == h \in {<<0, 0>>, Ones} /\ {<<0, 0>>, Ones} \subseteq Hashes
FindRight == \A h \in Hashes, c \in Classes : Alias(h) \/ ImplFind(h, c) = AbsFind(h, c)
Complete == {slot[i] : i \in DOMAIN slot} \ {0} = DOMAIN log
            /\ Cardinality({i \in DOMAIN slot : slot[i] # 0}) = Len(log)
KeepsRoom == \E i \in DOMAIN slot : slot[i] = 0
\* triangular probing visits every slot
ChainsCover == \A l \in 0..(Size-1) : {Probe(<<0, l>>, n) : n \in 0..(Size-1)} = 0..(Size-1)
Emit == (Len(log) = Size - 1) => PrintT(<<"HIST", [k \in DOMAIN log |-> <<log[k].h[1], log[k].h[2], log[k].c>>]>>)
=============================================================================
