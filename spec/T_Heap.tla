------------------------------- MODULE T_Heap -------------------------------
(* Histories of API calls recorded on the real objects: after every call all *)
(* live values and caller-owned containers are projected and compared with   *)
(* the specification's heap.                                                 *)
EXTENDS Heap, Trace

NormPos(p) == [u |-> p.u, x |-> p.x, f |-> Range0(p.f)]
NormTok(t) == [t EXCEPT !.pos = MapSeq(NormPos, @), !.ex = Range0(@)]
NormObj(o) ==
    CASE o.kind = "pos" -> Obj("pos", NormPos(o.v))
      [] o.kind = "ext" -> Obj("ext", Range0(o.v))
      [] o.kind = "tok" -> Obj("tok", NormTok(o.v))
      [] o.kind = "doc" -> Obj("doc", [text |-> o.v.text, toks |-> MapSeq(NormTok, o.v.toks), sents |-> o.v.sents])
NormCell(c) == IF c.kind = "L" THEN Obj("L", c.v) ELSE Obj(c.kind, Range0(c.v))

Derivations == {"MkPos", "MkExt", "UpdExt", "MkTok", "WithM", "WithS", "WithX", "UpdX", "DocTok"}
Reads == {"ReadF", "ReadX", "ReadItem"}
\* the head of a token read back from a document is C02's matter; everything else is compared
Observed(r, nx) == [nx EXCEPT !.objs = MapSeq(NormObj, r.objs), !.cells = MapSeq(NormCell, r.cells)]

JudgeC04(s, r) ==
    LET nx == Apply(s, r.op)
        now == Observed(r, nx)
    IN [st |-> now, bad |->
         IF Len(r.objs) < Len(s.objs) THEN {"value-lost"}
         ELSE Clause("value-changed-after-construction", \A i \in DOMAIN s.objs : now.objs[i] = s.objs[i])
              \cup Clause("caller-container-changed", \A i \in DOMAIN s.cells : now.cells[i] = nx.cells[i])]
JudgeC05(s, r) ==
    LET nx == Apply(s, r.op)
        now == Observed(r, nx)
    IN [st |-> now, bad |->
         IF r.op.n \in Derivations THEN
            IF Len(now.objs) # Len(nx.objs) THEN {"derivation-failed"}
            ELSE IF nx.last = 0 THEN {}
            ELSE Clause("derived-value-differs-in-" \o r.op.n, Last(now.objs) = Last(nx.objs))
         ELSE IF r.op.n \in Reads THEN
            IF Len(now.cells) # Len(nx.cells) THEN {"read-failed"}
            ELSE Clause("read-returns-the-value", Last(now.cells) = Last(nx.cells))
         ELSE {}]
=============================================================================
