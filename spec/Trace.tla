-------------------------------- MODULE Trace --------------------------------
(* Trace validation skeleton.  A trace is a sequence of records observed on  *)
(* the real implementation.  Records are grouped into histories ("sid"); the *)
(* specification state st is reset when a new history begins.  Judge(st, r)  *)
(* is supplied by the specification module bound to the trace and returns    *)
(* [st |-> next specification state, bad |-> set of violated clause names].  *)
(* The verdict is total: every record is consumed, every failing clause is   *)
(* collected, and the POSTCONDITION writes the list for the orchestrator.    *)
EXTENDS Common, Json, IOUtils

CONSTANTS Judge(_, _), InitSt

VARIABLES tl, tsid, tst, tbad

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

TInit == tl = 1 /\ tsid = -1 /\ tst = InitSt /\ tbad = <<>>

Verdict(r) == IF r.k = "crash" THEN [st |-> tst, bad |-> {"unexpected-exception"}]
              ELSE Judge(IF r.sid = tsid THEN tst ELSE InitSt, r)

TNext == /\ tl <= Len(TraceLog)
         /\ tl' = tl + 1
         /\ tsid' = TraceLog[tl].sid
         /\ LET v == Verdict(TraceLog[tl]) IN
              /\ tst' = v.st
              /\ tbad' = IF v.bad = {} THEN tbad ELSE Append(tbad, <<tl, SetToSeq(v.bad)>>)

TVars == <<tl, tsid, tst, tbad>>
TSpec == TInit /\ [][TNext]_TVars

Remember == TLCSet(7, tbad)
Report == JsonSerialize(IOEnv.OUT, [consumed |-> TLCGet("stats").diameter - 1, bad |-> TLCGet(7)])
=============================================================================
