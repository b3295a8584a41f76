---- MODULE Work_TTrace_1795054359 ----
EXTENDS Sequences, TLCExt, Toolbox, Work, Naturals, TLC

_expression ==
    LET Work_TEExpression == INSTANCE Work_TEExpression
    IN Work_TEExpression!expression
----

_trace ==
    LET Work_TETrace == INSTANCE Work_TETrace
    IN Work_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        next = (0)
        /\
        given = (16)
        /\
        scanpos = (0)
        /\
        avail = (16)
        /\
        b = (12)
        /\
        pc = ("scan")
        /\
        moved = (43)
        /\
        used = (0)
        /\
        alloc = (16)
        /\
        win = (0)
        /\
        scanlen = (16)
    )
----

_init ==
    /\ moved = _TETrace[1].moved
    /\ given = _TETrace[1].given
    /\ win = _TETrace[1].win
    /\ next = _TETrace[1].next
    /\ alloc = _TETrace[1].alloc
    /\ used = _TETrace[1].used
    /\ b = _TETrace[1].b
    /\ scanpos = _TETrace[1].scanpos
    /\ pc = _TETrace[1].pc
    /\ scanlen = _TETrace[1].scanlen
    /\ avail = _TETrace[1].avail
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ moved  = _TETrace[i].moved
        /\ moved' = _TETrace[j].moved
        /\ given  = _TETrace[i].given
        /\ given' = _TETrace[j].given
        /\ win  = _TETrace[i].win
        /\ win' = _TETrace[j].win
        /\ next  = _TETrace[i].next
        /\ next' = _TETrace[j].next
        /\ alloc  = _TETrace[i].alloc
        /\ alloc' = _TETrace[j].alloc
        /\ used  = _TETrace[i].used
        /\ used' = _TETrace[j].used
        /\ b  = _TETrace[i].b
        /\ b' = _TETrace[j].b
        /\ scanpos  = _TETrace[i].scanpos
        /\ scanpos' = _TETrace[j].scanpos
        /\ pc  = _TETrace[i].pc
        /\ pc' = _TETrace[j].pc
        /\ scanlen  = _TETrace[i].scanlen
        /\ scanlen' = _TETrace[j].scanlen
        /\ avail  = _TETrace[i].avail
        /\ avail' = _TETrace[j].avail

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("Work_TTrace_1795054359.json", _TETrace)

=============================================================================

 Note that you can extract this module `Work_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `Work_TEExpression.tla` file takes precedence 
  over the module `Work_TEExpression` below).

---- MODULE Work_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Work, Naturals, TLC

expression == 
    [
        \* To hide variables of the `Work` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        moved |-> moved
        ,given |-> given
        ,win |-> win
        ,next |-> next
        ,alloc |-> alloc
        ,used |-> used
        ,b |-> b
        ,scanpos |-> scanpos
        ,pc |-> pc
        ,scanlen |-> scanlen
        ,avail |-> avail
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_movedUnchanged |-> moved = moved'
        
        \* Format the `moved` variable as Json value.
        \* ,_movedJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(moved)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_movedModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].moved # _TETrace[s-1].moved
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE Work_TETrace ----
\*EXTENDS IOUtils, Work, TLC
\*
\*trace == IODeserialize("Work_TTrace_1795054359.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE Work_TETrace ----
EXTENDS Work, TLC

trace == 
    <<
    ([next |-> 0,given |-> 0,scanpos |-> 0,avail |-> 0,b |-> 12,pc |-> "idle",moved |-> 0,used |-> 0,alloc |-> 0,win |-> 0,scanlen |-> 0]),
    ([next |-> 0,given |-> 5,scanpos |-> 0,avail |-> 0,b |-> 12,pc |-> "get",moved |-> 0,used |-> 0,alloc |-> 0,win |-> 5,scanlen |-> 0]),
    ([next |-> 0,given |-> 5,scanpos |-> 0,avail |-> 5,b |-> 12,pc |-> "idle",moved |-> 0,used |-> 0,alloc |-> 16,win |-> 0,scanlen |-> 16]),
    ([next |-> 0,given |-> 10,scanpos |-> 0,avail |-> 5,b |-> 12,pc |-> "get",moved |-> 0,used |-> 0,alloc |-> 16,win |-> 5,scanlen |-> 16]),
    ([next |-> 0,given |-> 10,scanpos |-> 0,avail |-> 10,b |-> 12,pc |-> "idle",moved |-> 5,used |-> 0,alloc |-> 16,win |-> 0,scanlen |-> 16]),
    ([next |-> 0,given |-> 13,scanpos |-> 0,avail |-> 10,b |-> 12,pc |-> "get",moved |-> 5,used |-> 0,alloc |-> 16,win |-> 3,scanlen |-> 16]),
    ([next |-> 0,given |-> 13,scanpos |-> 0,avail |-> 13,b |-> 12,pc |-> "idle",moved |-> 15,used |-> 0,alloc |-> 16,win |-> 0,scanlen |-> 16]),
    ([next |-> 0,given |-> 15,scanpos |-> 0,avail |-> 13,b |-> 12,pc |-> "get",moved |-> 15,used |-> 0,alloc |-> 16,win |-> 2,scanlen |-> 16]),
    ([next |-> 0,given |-> 15,scanpos |-> 0,avail |-> 15,b |-> 12,pc |-> "idle",moved |-> 28,used |-> 0,alloc |-> 16,win |-> 0,scanlen |-> 16]),
    ([next |-> 0,given |-> 16,scanpos |-> 0,avail |-> 15,b |-> 12,pc |-> "get",moved |-> 28,used |-> 0,alloc |-> 16,win |-> 1,scanlen |-> 16]),
    ([next |-> 0,given |-> 16,scanpos |-> 0,avail |-> 16,b |-> 12,pc |-> "scan",moved |-> 43,used |-> 0,alloc |-> 16,win |-> 0,scanlen |-> 16])
    >>
----


=============================================================================

---- CONFIG Work_TTrace_1795054359 ----
CONSTANTS
    M = 4
    Bs = { 1 , 3 , 4 , 12 }
    N = 30
    W = 5
    Keen = TRUE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 02:12:40 UTC 2026