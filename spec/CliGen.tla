------------------------------- MODULE CliGen -------------------------------
(* All scenarios, each explored to its ends. *)
EXTENDS Cli
In1(a) == CASE a = "signature" -> {"ok", "empty", "missing", "unreadable", "dir", "stdin", "stdindir"}
            [] a = "delta" -> {"ok", "missing", "unreadable", "dir", "badmagic", "truncated", "corrupt", "badparam", "stdin", "none"}
            [] a = "patch" -> {"ok", "missing", "unreadable", "dir", "short"}
In2(a) == CASE a = "signature" -> {"ok"}
            [] a = "delta" -> {"ok", "empty", "missing", "unreadable", "dir", "stdin"}
            [] a = "patch" -> {"ok", "empty", "missing", "unreadable", "dir", "badmagic", "truncated", "corrupt", "stdin", "stdindir"}
Outs == {"absent", "exists", "existsempty", "symlink", "writeonly", "readonly", "nodir", "dir", "full", "limit", "stdout", "stdoutfull", "stdoutpipe"}
Usages(a) == {"ok", "toomany", "badopt", "badnum", "noaction", "badaction", "zip", "help", "version"} \cup (IF a = "signature" THEN {} ELSE {"noarg"}) \cup (IF a = "signature" THEN {"badhash", "badroll", "badblock", "badsum"} ELSE {})
Init == \E a \in {"signature", "delta", "patch"}, f \in BOOLEAN, big \in BOOLEAN, o \in Outs :
        \E i \in In1(a), j \in In2(a), u \in Usages(a), x \in {"none", "in1", "in2", "out"} :
          \* several faults at once, but not all combinations of wrong usage with everything
          /\ u # "ok" => i \in {"ok", "missing"} /\ j = "ok" /\ o \in {"absent", "exists", "stdout"}
          \* one failing call in an otherwise healthy command
          /\ x # "none" => u = "ok" /\ i = "ok" /\ j = "ok" /\ o \in {"absent", "exists", "symlink", "stdout"} /\ ~(a = "signature" /\ x = "in2") /\ ~(o = "stdout" /\ x = "out")
          /\ ~(i = "stdin" /\ j = "stdin")
          \* a delta that copies nothing does not read the basis
          /\ ~(a = "patch" /\ j = "empty" /\ i \in {"short", "dir"})
          \* a delta against no blocks may be cut into literals anyhow, so its length is not fixed
          /\ ~(a = "delta" /\ i = "none" /\ o = "limit")
          /\ PrintT(<<"SCEN", a, f, big, o, i, j, u, x>>)
          /\ LET n == IF big THEN 5000 ELSE 40 IN
             InitFor([act |-> a, force |-> f, usage |-> u, in1 |-> i, in2 |-> j, out |-> o, big |-> big, olen |-> n, lim |-> 512, flt |-> x])
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)
Ends == <>(~Running)
=============================================================================
