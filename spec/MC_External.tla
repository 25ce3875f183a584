---------------------------- MODULE MC_External ----------------------------
(* All histories of entering, leaving, calls, batches in any order and failing calls *)
EXTENDS External, Json, IOUtils
CONSTANTS MaxOps, MaxSents
VARIABLES x, ops
vars == <<x, ops>>
Init == x = X0 /\ ops = <<>>
Op(o, n) == [op |-> o, n |-> n, batches |-> <<>>, fail |-> -1]
LastOp == ops[Len(ops)]
Start(o) == ~x.busy /\ Len(ops) < MaxOps /\ ops' = Append(ops, o)
Perms(S) == { s \in UNION { [1..k -> S] : k \in 1..Cardinality(S) } : Cardinality(Range0(s)) = Len(s) }
Next == \/ ~x.on /\ Start(Op("enter", 0)) /\ x' = Enter(x)
        \/ x.on /\ Start(Op("leave", 0)) /\ x' = Leave(x)
        \/ ~x.on /\ ops # <<>> /\ LastOp.op # "call" /\ Start(Op("call", 1)) /\ x' = x                    \* refused
        \/ x.on /\ \E n \in 0..MaxSents : Start(Op("call", n)) /\ x' = Begin(x, n)
        \/ x.busy /\ \E b \in Perms(x.todo) : x' = Batch(x, b) /\ ops' = [ops EXCEPT ![Len(ops)].batches = Append(@, b)]
        \/ x.busy /\ x.todo # {} /\ x' = Fail(x) /\ ops' = [ops EXCEPT ![Len(ops)].fail = Len(LastOp.batches)]
        \/ x.busy /\ x.todo = {} /\ x' = Finish(x) /\ UNCHANGED ops
Spec == Init /\ [][Next]_vars
ResultIsOwn == \A d \in Range0(x.done) : \A i \in DOMAIN d[2] : d[2][i] = <<d[1], i>>
ResultIsComplete == \A d \in Range0(x.done) : \E o \in Range0(ops) : o.op = "call" /\ o.fail < 0 /\ Len(d[2]) = o.n
EachOnce == x.busy => Cardinality({ e[1] : e \in Range0(x.cache) }) = Len(x.cache) /\ \A e \in Range0(x.cache) : e[1] \notin x.todo
OnlyOpen == x.busy => x.on
Interesting == ~x.busy /\ Len(ops) = MaxOps /\ ops[1].op = "enter" /\ Cardinality({ k \in DOMAIN ops : ops[k].op = "call" }) >= 2
Collect == IF Interesting THEN TLCSet(8, Append(TLCGet(8), ops)) ELSE TRUE
CInit == Init /\ TLCSet(8, <<>>)
CSpec == CInit /\ [][Next]_vars
Write == JsonSerialize(IOEnv.OUT, TLCGet(8))
=============================================================================
