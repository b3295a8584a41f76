--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command-line tool.  A scenario fixes the command, the options, the  *)
(* state of the files involved and what the right output is; the machine   *)
(* looks at its arguments and files in any order, then works, then exits.  *)
(*   act   "signature" "delta" "patch"                                     *)
(*   usage "ok", "help" or "version" (asked for), or what is wrong with the *)
(*         command line                                                    *)
(*   in1, in2   the inputs: "ok", "stdin", or what is wrong with them      *)
(*   out   "absent" "exists" "existsempty" "symlink" (to a file that       *)
(*         exists) "writeonly" (exists, cannot be read)                    *)
(*         "readonly" (exists, cannot be written) "nodir" "dir" "full"     *)
(*         "limit" (no space after lim bytes) "stdout" "stdoutfull"        *)
(*         "stdoutpipe" (nobody reads it)                                  *)
(*   force, olen (length of the right output), lim                         *)
(*   flt   "none" or the file on which the system lets one call fail       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
SYNTAX == 101  IOERR == 100  ENDED == 103  BADMAGIC == 104  UNIMPL == 105  CORRUPT == 106  PARAM == 108

Info(u) == u \in {"help", "version"}   \* says something about itself and does nothing else
UsageCodes(u) == CASE u = "ok" -> {} [] Info(u) -> {0}
                   [] u = "zip" -> {UNIMPL}
                   [] u \in {"badblock", "badsum"} -> {PARAM}
                   [] OTHER -> {SYNTAX}
\* found when opening or when first reading
OpenCodes(i) == IF i \in {"missing", "unreadable", "dir", "stdindir"} THEN {IOERR} ELSE {}
\* found when working
WorkCodes(i) == CASE i = "badmagic" -> {BADMAGIC} [] i = "truncated" -> {ENDED} [] i = "corrupt" -> {CORRUPT}
                  [] i = "badparam" -> {PARAM, CORRUPT} [] i = "short" -> {IOERR, ENDED} [] OTHER -> {}
Exists(o) == o \in {"exists", "existsempty", "symlink", "writeonly", "readonly", "full", "dir"}
OutOpenCodes(s) == IF Exists(s.out) /\ ~s.force THEN {IOERR}
                   ELSE IF s.out \in {"nodir", "dir", "readonly", "closeddir"} THEN {IOERR} ELSE {}
OutWorkCodes(s) == IF s.out \in {"full", "stdoutfull", "stdoutpipe"} /\ s.olen > 0 THEN {IOERR}
                   ELSE IF s.out = "limit" /\ s.olen > s.lim THEN {IOERR} ELSE {}
Need(s) == CASE s.usage \in {"noaction", "badaction", "noarg"} \/ Info(s.usage) -> {"usage"}
             [] s.act = "signature" -> {"usage", "in1", "out"}
             [] OTHER -> {"usage", "in1", "in2", "out"}

VARIABLES s,      \* the scenario
          todo,   \* what the program still has to look at
          data,   \* the output: "absent" "old" "partial" "right"
          code    \* exit status, -1 while running
vars == <<s, todo, data, code>>
InitFor(x) == /\ s = x /\ todo = Need(x) /\ code = 999
              /\ data = IF Exists(x.out) THEN "old" ELSE "absent"
Running == code = 999
Exit(c, d) == code' = c /\ data' = d /\ UNCHANGED <<s, todo>>
\* the output is opened, which empties it
Opened == IF s.out \in {"full"} THEN "old" ELSE "partial"
Look(x) == /\ Running /\ x \in todo
           /\ CASE x = "usage" -> LET f == UsageCodes(s.usage) IN
                     IF f # {} THEN \E c \in f : Exit(c, data) ELSE todo' = todo \ {x} /\ UNCHANGED <<s, data, code>>
                [] x \in {"in1", "in2"} -> LET f == OpenCodes(s[x]) IN
                     IF f # {} THEN \E c \in f : Exit(c, data) ELSE todo' = todo \ {x} /\ UNCHANGED <<s, data, code>>
                [] x = "out" -> LET f == OutOpenCodes(s) IN
                     IF f # {} THEN \E c \in f : Exit(c, data)
                     ELSE todo' = todo \ {x} /\ data' = Opened /\ UNCHANGED <<s, code>>
InUse == IF s.act = "signature" THEN {"in1"} ELSE {"in1", "in2"}
Trouble == OutWorkCodes(s) \cup UNION {WorkCodes(s[i]) : i \in InUse}
\* a wrong option may also show only while working
Work == /\ Running /\ todo = {}
        /\ IF Trouble # {} THEN \E c \in Trouble : Exit(c, Opened) ELSE Exit(0, "right")
\* files may also be looked at only when they are needed
Early == /\ Running /\ "out" \notin todo /\ Trouble # {} /\ \E c \in Trouble : Exit(c, Opened)
\* a call to the system fails, if the program makes it at all: opening, reading, seeking, writing or closing
Fault == /\ Running /\ s.flt # "none"
         /\ \/ Exit(IOERR, data)
            \/ "out" \notin todo /\ Exit(IOERR, Opened)
            \/ todo = {} /\ Trouble = {} /\ Exit(IOERR, "right")
Next == (\E x \in todo : Look(x)) \/ Work \/ Early \/ Fault
Live == Next \/ (~Running /\ UNCHANGED vars)

\* exit status 0 only for a complete output
Truthful == code = 0 => IF Info(s.usage) THEN data = (IF Exists(s.out) THEN "old" ELSE "absent") ELSE data = "right"
\* an existing file is not touched without force
Preserve == Exists(s.out) /\ ~s.force => data = "old"
\* healthy commands succeed, others fail
Decided == ~Running /\ s.flt = "none" /\ ~Info(s.usage) => (code = 0) = (UsageCodes(s.usage) = {} /\ Trouble = {} /\ OutOpenCodes(s) = {} /\ \A i \in InUse : OpenCodes(s[i]) = {})
=============================================================================
