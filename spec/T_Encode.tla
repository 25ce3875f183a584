------------------------------- MODULE T_Encode -------------------------------
(* C22 tag labels, C23 lemma labels, C24 vocabularies, C25 batches *)
EXTENDS Encode, Trace
NoState == 0
Keep(s, b) == [st |-> s, bad |-> b]

\* ---------------------------------------------------------------- C22 -------
\* a tag is <<>> or <<[u, x, f]>>: optional texts u, x and feature pairs f
FeatOf(f, key) == LET m == SelectSeq(f, LAMBDA p : p[1] = key) IN IF m = <<>> THEN None ELSE Some(m[1][2])
Keys(p) == { p[1].f[i][1] : i \in DOMAIN p[1].f }
PartNames(how) == CASE how = "pos_joint" -> <<"POS">> [] how = "pos_XF" -> <<"UPOS", "XPOS+FEATS">> [] how = "pos_UXF" -> <<"UPOS", "XPOS", "FEATS">>
                    [] how = "pos_gran" -> <<"UPOS", "XPOS">>
NamesOk(r) == IF r.how # "pos_gran" THEN r.names = PartNames(r.how)
              ELSE /\ Len(r.names) >= 2 /\ SubSeq(r.names, 1, 2) = PartNames(r.how)
                   /\ LET rest == SubSeq(r.names, 3, Len(r.names))
                          keys == UNION { Keys(r.train[k]) : k \in DOMAIN r.train }
                      IN Range0(rest) = keys /\ Len(rest) = Cardinality(keys)
Part(r, p, k) == CASE r.how = "pos_joint" -> p
                   [] r.how = "pos_XF" -> IF k = 1 THEN p[1].u ELSE <<p[1].x, p[1].f>>
                   [] r.how = "pos_UXF" -> IF k = 1 THEN p[1].u ELSE IF k = 2 THEN p[1].x ELSE p[1].f
                   [] r.how = "pos_gran" -> IF k = 1 THEN p[1].u ELSE IF k = 2 THEN p[1].x ELSE FeatOf(p[1].f, r.names[k])
PosSet(p) == IF p = <<>> THEN <<>> ELSE <<[u |-> p[1].u, x |-> p[1].x, f |-> Range0(p[1].f)]>>
Combine(r, v) == CASE r.how = "pos_joint" -> PosSet(v[1])
                   [] r.how = "pos_XF" -> <<[u |-> v[1], x |-> v[2][1], f |-> Range0(v[2][2])]>>
                   [] r.how = "pos_UXF" -> <<[u |-> v[1], x |-> v[2], f |-> Range0(v[3])]>>
                   [] r.how = "pos_gran" -> <<[u |-> v[1], x |-> v[2], f |-> { <<r.names[k], v[k][1]>> : k \in { j \in 3..Len(v) : v[j] # None } }]>>
Column(r, k) == MapSeq(LAMBDA p : Part(r, p, k), r.train)
LabCol(r, k) == MapSeq(LAMBDA l : l[k], r.lab)
PosBad(r) ==
    LET n == Len(r.names)
        shape == NamesOk(r) /\ \A t \in DOMAIN r.lab : Len(r.lab[t]) = n
        dict(k) == IsDictionary(Column(r, k), 0, LabCol(r, k), r.sizes[k])
        Val(k, i) == Meaning(Column(r, k), CHOOSE mf \in MostZero(Column(r, k), 0, LabCol(r, k)) : TRUE, LabCol(r, k), i)
        want(p, k) == LET hits == { t \in DOMAIN r.train : Part(r, r.train[t], k) = Part(r, p, k) } IN IF hits = {} THEN 0 ELSE r.lab[CHOOSE t \in hits : TRUE][k]
    IN IF ~shape THEN {"parts-of-the-tag"}
       ELSE Clause("numbers-are-a-dictionary", \A k \in 1..n : dict(k))
            \cup Clause("tags-come-back", MapSeq(PosSet, r.back) = MapSeq(PosSet, r.train))
            \cup (IF \A k \in 1..n : dict(k) THEN
                    Clause("predicted-numbers-mean-their-parts", \A q \in DOMAIN r.qs : PosSet(r.qs[q].pos) = Combine(r, [ k \in 1..n |-> Val(k, r.qs[q].ids[k]) ]))
                    \cup Clause("unknown-parts-count-as-most-frequent", \A q \in DOMAIN r.foreign : \A k \in 1..n : r.foreign[q].ids[k] = want(r.foreign[q].pos, k))
                  ELSE {})
            \cup Clause("other-annotations-kept", r.keeps)
JudgeC22(s, r) == Keep(s, PosBad(r))

\* ---------------------------------------------------------------- C23 -------
DictBad(r) == Clause("label-name", r.names = <<"LEMMA">>)
              \cup Clause("numbers-are-a-dictionary", IsDictionary(r.train, 0, r.lab, r.size))
              \cup Clause("lemmas-come-back", r.back = r.train)
              \cup Clause("other-annotations-kept", r.keeps)
\* pairs: <<unit, number>> seen in the output
PairsOk(P, known, base, rows) ==
    \A p \in P : IF p[1] \notin known THEN p[2] = Oov
                 ELSE p[2] \in base..(rows - 1) /\ \A q \in P : q[1] \in known => (p[1] = q[1] <=> p[2] = q[2])
CharBad(r) ==
    LET known == Frequent(Concat(r.train), r.min)
        n == DOMAIN r.toks
        form(k) == LET t == r.toks[k] IN
                   /\ Len(t.lab) = r.m
                   /\ \A j \in 1..r.m : CASE j = 1 -> t.lab[j] = Start
                                          [] j > 1 /\ j <= Len(t.seg) + 1 -> TRUE
                                          [] j = Len(t.seg) + 2 -> t.lab[j] = End
                                          [] j > Len(t.seg) + 2 -> t.lab[j] = Padding
        P == UNION { { <<r.toks[k].seg[j], r.toks[k].lab[j + 1]>> : j \in 1..Min2(Len(r.toks[k].seg), r.m - 1) } : k \in n }
        seen == { p[2] : p \in P } \cup {Padding, Oov, Start, End}
        names == [ i \in { p[2] : p \in { q \in P : q[1] \in known } } |-> (CHOOSE p \in P : p[1] \in known /\ p[2] = i)[1] ]
    IN IF ~\A k \in n : form(k) THEN {"label-layout"}
       ELSE Clause("rows", r.rows = Cardinality(known) + 4)
            \cup (IF ~PairsOk(P, known, 4, r.rows) THEN {"one-number-per-frequent-unit"}
                  ELSE Clause("lemma-comes-back", \A k \in n : r.toks[k].back = Concat(SelectSeq(SubSeq(r.toks[k].seg, 1, Min2(Len(r.toks[k].seg), r.m - 1)), LAMBDA u : u \in known)))
                       \cup Clause("predicted-numbers-read-to-the-end", \A q \in DOMAIN r.qs : (\A j \in DOMAIN r.qs[q].ids : r.qs[q].ids[j] \in seen) => r.qs[q].lemma = ReadBack(r.qs[q].ids, names)))
            \cup Clause("other-annotations-kept", r.keeps)
JudgeC23(s, r) == Keep(s, CASE r.k = "dict" -> DictBad(r) [] r.k = "char" -> CharBad(r))

\* ---------------------------------------------------------------- C24 -------
\* train: units of the training tokens; or file: words and vectors
VocabBad(r) ==
    LET known == IF r.pre THEN { r.file[k][1] : k \in DOMAIN r.file } ELSE Frequent(Concat(r.train), r.min)
        base == IF r.word THEN 2 ELSE 4
        n == DOMAIN r.toks
        form(k) == LET t == r.toks[k] IN
                   IF r.word THEN Len(t.ids) = 1
                   ELSE Len(t.ids) = Len(t.seg) + 2 /\ t.ids[1] = Start /\ t.ids[Len(t.ids)] = End
        P == UNION { { <<r.toks[k].seg[j], r.toks[k].ids[IF r.word THEN 1 ELSE j + 1]>> : j \in DOMAIN r.toks[k].seg } : k \in n }
        last(w) == r.file[Max({ k \in DOMAIN r.file : r.file[k][1] = w })][2]
        num(w) == (CHOOSE p \in P : p[1] = w)[2]
    IN IF ~\A k \in n : form(k) THEN {"feature-layout"}
       ELSE Clause("rows", r.rows[1] = Cardinality(known) + base)
            \cup (IF ~PairsOk(P, known, base, r.rows[1]) THEN {"one-number-per-known-unit"}
                  ELSE IF ~r.pre THEN Clause("no-initial-values", r.init = <<>>)
                  ELSE Clause("vector-size", Len(r.rows) = 2 /\ \A k \in DOMAIN r.file : Len(r.file[k][2]) = r.rows[2])
                       \cup Clause("every-vector-in-its-row", \A w \in known : (\E p \in P : p[1] = w) => <<num(w), last(w)>> \in Range0(r.init))
                       \cup Clause("padding-row-is-zero", <<Padding, [ j \in 1..r.rows[2] |-> 0 ]>> \in Range0(r.init))
                       \cup Clause("no-other-rows", Len(r.init) = Cardinality(known) + 1))
JudgeC24(s, r) == Keep(s, CASE r.k = "vocab" -> VocabBad(r)
                            [] r.k = "repro" -> Clause("same-numbers-in-every-process", r.a = r.b)
                            [] r.k = "refuse" -> Clause("bad-configuration-refused", r.exc = "ValueError"))

\* ---------------------------------------------------------------- C25 -------
RECURSIVE Sparse(_, _)
Sparse(a, b) == a.leaf = b.leaf /\ Len(a.l) = Len(b.l) /\ (IF b.leaf THEN a.n \in {b.n, Oov} ELSE \A k \in DOMAIN b.l : Sparse(a.l[k], b.l[k]))
RECURSIVE AllOov(_)
AllOov(a) == IF a.leaf THEN a.n = Oov ELSE \A k \in DOMAIN a.l : AllOov(a.l[k])
PadBad(r) == IF ~Homogeneous(r.inp) THEN Clause("mixed-feature-refused", r.exc = "ValueError")
             ELSE Clause("batch-failed", r.exc = "") \cup Clause("padded", r.exc # "" \/ r.out = Pad(r.inp))
SparseBad(r) == Clause("shape-kept-or-unknown", Len(r.out) = Len(r.inp) /\ \A k \in DOMAIN r.inp : Sparse(r.out[k], r.inp[k]))
                \cup Clause("rate-zero-changes-nothing", r.rate = 0 => r.out = r.inp)
                \cup Clause("rate-one-hides-everything", r.rate = 100 => \A k \in DOMAIN r.out : AllOov(r.out[k]))
                \cup Clause("without-sparse-rate-nothing-changes", r.plain = r.inp)
\* parts: features of each builder alone, as <<name, value>> lists
Names(p) == { p[k][1] : k \in DOMAIN p }
MergeBad(r) ==
    LET clash == \E i, j \in DOMAIN r.parts : i < j /\ Names(r.parts[i].f) \cap Names(r.parts[j].f) # {}
        sclash == \E i, j \in DOMAIN r.parts : i < j /\ Names(r.parts[i].s) \cap Names(r.parts[j].s) # {}
    IN Clause("same-name-refused", clash => r.exc = "ValueError") \cup Clause("same-shape-name-refused", sclash => r.sexc = "ValueError")
       \cup (IF clash THEN {} ELSE Clause("merged-features-are-all-features", r.exc = "" /\ Range0(r.f) = UNION { Range0(r.parts[i].f) : i \in DOMAIN r.parts } /\ Len(r.f) = Cardinality(Range0(r.f))))
       \cup (IF sclash THEN {} ELSE Clause("merged-shapes-are-all-shapes", r.sexc = "" /\ Range0(r.s) = UNION { Range0(r.parts[i].s) : i \in DOMAIN r.parts }))
\* interpretation: every element with its own values, by every interpreter; values beyond the elements are ignored
InterpBad(r) == Clause("each-element-gets-its-own-values", Len(r.got) = Len(r.objs) /\ \A i \in DOMAIN r.objs : Len(r.got[i]) = Len(r.objs[i]) /\ \A j \in DOMAIN r.objs[i] :
                    r.got[i][j][1] = r.objs[i][j] /\ Range0(r.got[i][j][2]) = { <<r.names[n], r.vals[n][i][j]>> : n \in DOMAIN r.names } /\ Len(r.got[i][j][2]) = Len(r.names))
JudgeC25(s, r) == Keep(s, CASE r.k = "pad" -> PadBad(r) [] r.k = "sparse" -> SparseBad(r) [] r.k = "merge" -> MergeBad(r) [] r.k = "interp" -> InterpBad(r))
=============================================================================
