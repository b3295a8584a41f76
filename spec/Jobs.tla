-------------------------------- MODULE Jobs --------------------------------
(***************************************************************************)
(* Lives of several jobs that run interleaved, and the objects they own.   *)
(* A scenario is a sequence of jobs [dep, cum, res]: cum[k] is what the    *)
(* job has delivered after k calls when it runs alone, res its result, dep *)
(* the load job whose signature a delta job uses (0: none, -1: its own     *)
(* job's private signature).  Anything may happen in any order as long as  *)
(* the application keeps the rules of the API: begin once, no calls after  *)
(* the end, a signature is indexed before use and freed after its users.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES jobs,    \* the scenario
          st,      \* per job: "new" "live" "over" "freed"
          calls,   \* per job: calls made
          sent,    \* per job: what it delivered
          sig,     \* per job: "none" "part" "loaded" "built" "gone": signature of a load job
          heap,    \* objects allocated and not yet freed
          hist     \* what the application did: <<what, job>>
vars == <<jobs, st, calls, sent, sig, heap, hist>>
STEP == 0  BEGIN == 1  FREE == 2  BUILD == 3  FREESIG == 4
N(j) == Len(jobs[j].cum)
IsLoad(j) == jobs[j].kind = "load"
IsSig(j) == jobs[j].kind = "sig"
Dep(j) == jobs[j].dep
Users(j) == {u \in DOMAIN jobs : Dep(u) = j /\ st[u] \in {"live", "over"}}
Do(a, j) == hist' = Append(hist, <<a, j>>) /\ UNCHANGED jobs

InitFor(s) == /\ jobs = s
              /\ st = [j \in DOMAIN s |-> "new"] /\ calls = [j \in DOMAIN s |-> 0] /\ sent = [j \in DOMAIN s |-> 0]
              /\ sig = [j \in DOMAIN s |-> "none"] /\ heap = {} /\ hist = <<>>
\* a job allocates itself; loading also a signature for the application,
\* making a signature one of its own
Begin(j) == /\ st[j] = "new" /\ (Dep(j) > 0 => sig[Dep(j)] = "built")
            /\ st' = [st EXCEPT ![j] = "live"]
            /\ sig' = IF IsLoad(j) THEN [sig EXCEPT ![j] = "part"] ELSE sig
            /\ heap' = heap \cup {<<"job", j>>} \cup (IF IsLoad(j) \/ IsSig(j) THEN {<<"sig", j>>} ELSE {})
            /\ Do(BEGIN, j) /\ UNCHANGED <<calls, sent>>
\* a call reads and writes nothing but the job and, never changing it, its signature
Step(j) == /\ st[j] = "live"
           /\ <<"job", j>> \in heap /\ (Dep(j) > 0 => <<"sig", Dep(j)>> \in heap)
           /\ calls' = [calls EXCEPT ![j] = @ + 1]
           /\ sent' = [sent EXCEPT ![j] = jobs[j].cum[calls[j] + 1]]
           /\ st' = IF calls[j] + 1 = N(j) THEN [st EXCEPT ![j] = "over"] ELSE st
           /\ sig' = IF IsLoad(j) /\ calls[j] + 1 = N(j) THEN [sig EXCEPT ![j] = IF jobs[j].res = 0 THEN "loaded" ELSE "gone"] ELSE sig
           /\ heap' = IF IsLoad(j) /\ calls[j] + 1 = N(j) /\ jobs[j].res # 0 THEN heap \ {<<"sig", j>>} ELSE heap
           /\ Do(STEP, j)
\* freeing a job frees what it owns; an unfinished load's signature is the application's to drop
Free(j) == /\ st[j] \in {"live", "over"}
           /\ st' = [st EXCEPT ![j] = "freed"]
           /\ sig' = IF sig[j] = "part" THEN [sig EXCEPT ![j] = "gone"] ELSE sig
           /\ heap' = heap \ ({<<"job", j>>} \cup (IF IsSig(j) \/ sig[j] = "part" THEN {<<"sig", j>>} ELSE {}))
           /\ Do(FREE, j) /\ UNCHANGED <<calls, sent>>
Build(j) == /\ sig[j] = "loaded" /\ sig' = [sig EXCEPT ![j] = "built"]
            /\ Do(BUILD, j) /\ UNCHANGED <<st, calls, sent, heap>>
FreeSig(j) == /\ sig[j] \in {"loaded", "built"} /\ Users(j) = {}
              /\ sig' = [sig EXCEPT ![j] = "gone"] /\ heap' = heap \ {<<"sig", j>>}
              /\ Do(FREESIG, j) /\ UNCHANGED <<st, calls, sent>>
Next == \E j \in DOMAIN jobs : Begin(j) \/ Step(j) \/ Free(j) \/ Build(j) \/ FreeSig(j)
View == <<jobs, st, calls, sent, sig, heap>>

\* every job delivers what it delivers alone, whatever the others do
Independent == \A j \in DOMAIN jobs : sent[j] = IF calls[j] = 0 THEN 0 ELSE jobs[j].cum[calls[j]]
\* nothing a live job uses has been freed
NoDangling == \A j \in DOMAIN jobs : /\ st[j] \in {"live", "over"} => <<"job", j>> \in heap
                                     /\ st[j] \in {"live", "over"} /\ Dep(j) > 0 => sig[Dep(j)] = "built" /\ <<"sig", Dep(j)>> \in heap
\* when the application has freed everything nothing is left
NoLeak == (\A j \in DOMAIN jobs : st[j] \in {"new", "freed"} /\ sig[j] \in {"none", "gone"}) => heap = {}
=============================================================================
