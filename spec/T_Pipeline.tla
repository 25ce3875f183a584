----------------------------- MODULE T_Pipeline -----------------------------
(* C29 chains, C30 UDPipe, C31 baselines *)
EXTENDS Pipeline, Trace
NoState == 0
Keep(s, b) == [st |-> s, bad |-> b]
Evs(r, t) == SelectSeq(r.log, LAMBDA e : e.t = t)
Ids(s) == MapSeq(LAMBDA e : e.i, s)

\* ---------------------------------------------------------------- C29 -------
S(r) == [ i \in 1..r.n |-> <<99 + i>> ]
\* what happens when the documents run out by a failure of their source after r.src of them
ChainBad(r) ==
    LET all == IF r.src >= 0 THEN Streamed(r.stages, SubSeq(S(r), 1, r.src)).out ELSE Composed(r.stages, 1, S(r))
        want == IF r.take < 0 THEN all ELSE SubSeq(all, 1, Min2(r.take, Len(all)))
        broken == r.fail >= 0
        whole == MapSeq(LAMBDA g : g[2], r.stages)
        ins == IF broken THEN SubSeq(whole, 1, r.fail) ELSE whole
        exits == Evs(r, "exit")
        raised == IF broken THEN r.failure ELSE IF r.take = 0 THEN "" ELSE IF r.src >= 0 THEN "LookupError" ELSE r.body
        body == { i \in DOMAIN r.log : r.log[i].t = "body" }
        pulls(j) == Cardinality({ i \in 1..j : r.log[i].t = "pull" })
        outs == { i \in DOMAIN r.log : r.log[i].t = "out" }
    IN Clause("exception-passed-on", r.exc = raised)
       \cup Clause("entered-once-in-order", Ids(Evs(r, "enter")) = ins)
       \cup Clause("exited-exactly-those-entered", IsPerm(Ids(exits), ins) /\ \A i \in DOMAIN r.log : r.log[i].t = "exit" => \A j \in (i + 1)..Len(r.log) : r.log[j].t = "exit")
       \cup Clause("told-about-the-exception", \A k \in DOMAIN exits : exits[k].exc = raised)
       \cup Clause("body-runs-entered", IF broken THEN body = {} ELSE Cardinality(body) = 1 /\ \A i \in body : r.log[i].i = 1)
       \cup (IF broken THEN {} ELSE
             Clause("result-is-the-composition", r.out = want)
             \cup Clause("read-once-in-order", LET p == Ids(Evs(r, "pull")) IN p = [ k \in 1..Len(p) |-> k - 1 ])
             \cup Clause("reads-no-more-than-needed", \A i \in outs : pulls(i) <= Needed(r.stages, S(r), r.log[i].i + 1)))
JudgeC29(s, r) == Keep(s, ChainBad(r))

\* ---------------------------------------------------------------- C30 -------
Sents(r) == Concat(MapSeq(LAMBDA d : MapSeq(LAMBDA b : Slice(d.an, b[1], b[2]), d.sents), r.docs))
Calls(r, op) == SelectSeq(r.log, LAMBDA c : c.op = op)
Morph(w) == [form |-> w.form, lemma |-> w.lemma, u |-> w.u, x |-> w.x, f |-> w.f]
SameF(a, b) == Range0(a) = Range0(b) /\ Len(a) = Len(b)
EqWord(a, b) == a.form = b.form /\ a.lemma = b.lemma /\ a.u = b.u /\ a.x = b.x /\ SameF(a.f, b.f)
EqPos(a, b) == IF a = None \/ b = None THEN a = b ELSE a[1].u = b[1].u /\ a[1].x = b[1].x /\ SameF(a[1].f, b[1].f)
Frame(a, b) == a.text = b.text /\ a.sents = b.sents /\ a.toks = b.toks /\ MapSeq(LAMBDA t : t.form, a.an) = MapSeq(LAMBDA t : t.form, b.an)
UdBad(r) ==
    LET sents == Sents(r)
        first == IF r.cls = "parser" THEN "parse" ELSE "tag"
        last == IF r.cls = "tagger" THEN "tag" ELSE "parse"
        ops == IF r.cls = "both" THEN {"tag", "parse"} ELSE {first}
        outs == Concat(MapSeq(LAMBDA d : MapSeq(LAMBDA b : Slice(d.an, b[1], b[2]), d.sents), r.out))
        shown(op) == MapSeq(LAMBDA c : c, Calls(r, op))
        counts == \A op \in {"tag", "parse"} : Len(Calls(r, op)) = (IF op \in ops THEN Len(sents) ELSE 0)
    IN Clause("processing-failed", r.exc = "") \cup Clause("every-sentence-once", counts) \cup Clause("options-passed", \A k \in DOMAIN r.log : r.log[k].opts = r.opts)
       \cup Clause("text-and-segmentation-kept", Len(r.out) = Len(r.docs) /\ \A d \in DOMAIN r.out : Frame(r.out[d], r.docs[d]))
       \cup Clause("one-document-at-a-time", r.flow = Concat([ k \in 1..Len(r.docs) |-> << <<"pull", k - 1>>, <<"out", k - 1>> >> ]))
       \cup (IF ~counts \/ r.exc # "" THEN {} ELSE
             Clause("words-and-annotations-sent", \A k \in DOMAIN sents : LET w == Calls(r, first)[k].before IN
                Len(w) = Len(sents[k]) /\ \A j \in DOMAIN w : EqWord(WordOf(sents[k][j]), Morph(w[j])))
             \cup Clause("tagged-before-parsed", r.cls = "both" => \A k \in DOMAIN sents : Calls(r, "parse")[k].before = Calls(r, "tag")[k].after)
             \cup Clause("annotations-received", Len(outs) = Len(sents) /\ \A k \in DOMAIN outs : LET w == Calls(r, last)[k].after IN
                Len(w) = Len(outs[k]) /\ \A j \in DOMAIN w : EqPos(outs[k][j].pos, MorphOf(w[j]).pos) /\ outs[k][j].lemma = MorphOf(w[j]).lemma)
             \cup Clause("syntax-received", r.cls = "tagger" \/ (Len(outs) = Len(sents) /\ \A k \in DOMAIN outs : LET w == Calls(r, last)[k].after IN
                Len(w) = Len(outs[k]) /\ \A j \in DOMAIN w : outs[k][j].hs = FromUd(w[j].head) /\ outs[k][j].deprel = TextOr(w[j].deprel))))
JudgeC30(s, r) == Keep(s, UdBad(r))

\* ---------------------------------------------------------------- C31 -------
AllAn(ds) == Concat(MapSeq(LAMBDA d : d.an, ds))
Norm(p) == IF p = None THEN None ELSE <<[u |-> p[1].u, x |-> p[1].x, f |-> Range0(p[1].f)]>>
Tagged(r, pos) == \A d \in DOMAIN r.out : \A t \in DOMAIN r.out[d].an : LET o == r.out[d].an[t] i == r.docs[d].an[t] IN
                     Norm(o.pos) = Norm(pos) /\ o.lemma = <<i.form>> /\ o.deprel = i.deprel /\ o.hs = i.hs
Parsed(r) == \A d \in DOMAIN r.out : \A k \in DOMAIN r.out[d].sents : LET b == r.out[d].sents[k] IN \A t \in (b[1] + 1)..b[2] :
                LET o == r.out[d].an[t] i == r.docs[d].an[t] IN
                o.hs = <<t - b[1] - 2>> /\ o.deprel = r.deprel /\ Norm(o.pos) = Norm(i.pos) /\ o.lemma = i.lemma
Mode0(r) == LET ps == MapSeq(LAMBDA t : Norm(t.pos), AllAn(r.docs)) IN { p \in Range0(ps) : \A q \in Range0(ps) : Count(ps, q) <= Count(ps, p) }
FrameAll(r) == Len(r.out) = Len(r.docs) /\ \A d \in DOMAIN r.out : Frame(r.out[d], r.docs[d])
StubBad(r) ==
    Clause("text-and-segmentation-kept", FrameAll(r))
    \cup (IF ~FrameAll(r) THEN {} ELSE
          CASE r.k = "tag" -> Clause("baseline-tag", Tagged(r, r.pos))
            [] r.k = "parse" -> Clause("chain-of-heads", Parsed(r))
            [] r.k = "trained" -> Clause("most-frequent-tag", r.n = 1 /\ \E p \in Mode0(r) : \A t \in DOMAIN AllAn(r.out) : Norm(AllAn(r.out)[t].pos) = p))
    \cup Clause("one-document-at-a-time", r.k = "trained" \/ r.flow = Concat([ k \in 1..Len(r.docs) |-> << <<"pull", k - 1>>, <<"out", k - 1>> >> ]))
JudgeC31(s, r) == Keep(s, StubBad(r))
=============================================================================
