-------------------------------- MODULE Oom --------------------------------
(***************************************************************************)
(* What may happen when memory runs out: a pipeline of stages (signature,  *)
(* load, index, delta, patch), each asking for memory a number of times.   *)
(* Most requests are vital: refused, the library says so and aborts.  The  *)
(* index reports a memory error instead, having given back what it got, so *)
(* the stage can be repeated or everything dropped.  Nothing else happens: *)
(* no stage succeeds without what it needs.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Needs,        \* requests of each stage
          Soft,         \* stages that report a refusal
          Keeps,        \* what a stage leaves allocated for later ones
          Refusals      \* how many requests may be refused
VARIABLES stage, held, kept, left, said, end, done
vars == <<stage, held, kept, left, said, end, done>>
N == Len(Needs)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Init == stage = 1 /\ held = 0 /\ kept = 0 /\ left = Refusals /\ said = FALSE /\ end = "" /\ done = {}
On == end = "" /\ stage <= N
Grant == On /\ held < Needs[stage] /\ held' = held + 1 /\ UNCHANGED <<stage, kept, left, said, end, done>>
Refuse == /\ On /\ held < Needs[stage] /\ left > 0 /\ left' = left - 1
          /\ IF stage \in Soft
             THEN \/ held' = 0 /\ UNCHANGED <<stage, kept, said, end, done>>                               \* and again
                  \/ held' = 0 /\ kept' = 0 /\ end' = "dropped" /\ UNCHANGED <<stage, said, done>>
             ELSE said' = TRUE /\ end' = "abort" /\ UNCHANGED <<stage, held, kept, done>>
Succeed == /\ On /\ held = Needs[stage]
           /\ kept' = kept + Keeps[stage] /\ held' = 0 /\ done' = done \cup {stage} /\ stage' = stage + 1
           /\ UNCHANGED <<left, said, end>>
Close == end = "" /\ stage = N + 1 /\ kept' = 0 /\ end' = "exit" /\ UNCHANGED <<stage, held, left, said, done>>
Next == Grant \/ Refuse \/ Succeed \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* an end is what it claims to be
Honest == /\ (end = "exit" => done = 1..N) /\ (end = "abort" => said /\ left < Refusals) /\ (left = Refusals => end \in {"", "exit"})
          /\ done = 1..(stage - 1)
\* nothing is lost, whatever is refused
Balanced == /\ (end \in {"exit", "dropped"} => kept = 0 /\ held = 0)
            /\ (end = "" => kept = SumTo(Keeps, stage - 1))
Ends == <>(end # "")
=============================================================================
