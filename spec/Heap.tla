-------------------------------- MODULE Heap --------------------------------
(* Value semantics of the data model.  A caller holds values (Pos, extras,   *)
(* tokens, documents: "objs") and its own mutable containers (dictionaries,  *)
(* lists of tokens: "cells").  It constructs, derives, reads and mutates its *)
(* own containers in any order; a value once obtained never changes.         *)
(* Apply(st, op) is one API call; it only ever appends to objs.              *)
EXTENDS DataModel

\* st: [objs, cells, last] ; object: [kind, v] ; cell: [kind, v]
\* dictionaries are sets of pairs here.
HeapInit == [objs |-> <<>>, cells |-> <<>>, last |-> 0]

SetKey(d, k, v) == { p \in d : p[1] # k } \cup {<<k, v>>}
DelKey(d, k) == { p \in d : p[1] # k }
Lookup(d, k) == (CHOOSE p \in d : p[1] = k)[2]
Keys(d) == { p[1] : p \in d }
Merge(d, n) == { p \in d : p[1] \notin Keys(n) } \cup n

Obj(k, v) == [kind |-> k, v |-> v]
AddObj(st, k, v) == [st EXCEPT !.objs = Append(@, Obj(k, v)), !.last = 1]
AddCell(st, k, v) == [st EXCEPT !.cells = Append(@, Obj(k, v)), !.last = 1]
SetCell(st, c, v) == [st EXCEPT !.cells[c].v = v, !.last = 1]
\* a value that counts as false to the host language (no value, zero, an empty container): a value like any other
Falsy == <<"~falsy">>
Reject(st) == [st EXCEPT !.last = 0]

OV(st, o) == st.objs[o].v
CV(st, c) == st.cells[c].v
PosOf(st, o) == IF o = 0 THEN None ELSE <<OV(st, o)>>          \* 0: not given
ExtOf(st, o) == IF o = 0 THEN {} ELSE OV(st, o)

HText == [ i \in 1..12 |-> IF i % 2 = 1 THEN 96 + i ELSE 32 ]    \* "a c e g i k "
\* mw: 0 plain token, 1 / 2 first / second word of a multiword token
NewTok(slot, mw, pos, ex, lemma) ==
    [s |-> 2 * slot, e |-> 2 * slot + 1, sub |-> IF mw = 2 THEN 1 ELSE 0, rep |-> IF mw = 0 THEN None ELSE <<<<119, 48 + mw>>>>, hd |-> None, hs |-> None,
     pos |-> pos, lemma |-> lemma, deprel |-> None, ex |-> ex, txt |-> None]

\* The document value built from the tokens of a list cell
StripTxt(t) == [t EXCEPT !.txt = None]
DocOf(st, c, cut) ==
    LET ts == MapSeq(LAMBDA o : StripTxt(OV(st, o)), CV(st, c))
        n == Len(ts)
        ss == IF n > 1 /\ cut > 0 /\ cut < n THEN << <<0, cut>>, <<cut, n>> >> ELSE << <<0, n>> >>
    IN Build(HText, ts, IF n = 0 THEN None ELSE <<ss>>)
ReDocOf(st, d, c) ==
    LET ts == MapSeq(LAMBDA o : StripTxt(OV(st, o)), CV(st, c)) IN ReAnnotate(OV(st, d), ts)
DocVal(d) == [text |-> d.text, toks |-> d.toks, sents |-> d.sents]
NavTok(d, i) == LET t == d.toks[i] IN [t EXCEPT !.txt = <<TokText(d, t)>>]

Apply(st, op) ==
    CASE op.n = "NewF" -> AddCell(st, "F", Range0(op.d))
      [] op.n = "SetF" -> SetCell(st, op.c, SetKey(CV(st, op.c), op.key, op.v))
      [] op.n = "DelF" -> SetCell(st, op.c, DelKey(CV(st, op.c), op.key))
      [] op.n = "NewX" -> AddCell(st, "X", Range0(op.d))
      [] op.n = "SetX" -> SetCell(st, op.c, SetKey(CV(st, op.c), op.key, <<op.v>>))
      [] op.n = "DelX" -> SetCell(st, op.c, DelKey(CV(st, op.c), op.key))
      [] op.n = "PushX" -> IF op.key \notin Keys(CV(st, op.c)) \/ Lookup(CV(st, op.c), op.key) = Falsy THEN [st EXCEPT !.last = 1]
                           ELSE SetCell(st, op.c, SetKey(CV(st, op.c), op.key, Append(Lookup(CV(st, op.c), op.key), op.v)))
      [] op.n = "MkPos" -> AddObj(st, "pos", [u |-> op.u, x |-> op.x, f |-> IF op.c = 0 THEN {} ELSE CV(st, op.c)])
      [] op.n = "ReadF" -> AddCell(st, "F", OV(st, op.o).f)
      [] op.n = "MkExt" -> AddObj(st, "ext", CV(st, op.c))
      [] op.n = "ReadX" -> AddCell(st, "X", OV(st, op.o))
      [] op.n = "ReadItem" -> IF op.key \notin Keys(OV(st, op.o)) THEN AddCell(st, "X", {})
                              ELSE AddCell(st, "X", {<<op.key, Lookup(OV(st, op.o), op.key)>>})
      [] op.n = "UpdExt" -> AddObj(st, "ext", Merge(OV(st, op.o), CV(st, op.c)))
      [] op.n = "MkTok" -> AddObj(st, "tok", NewTok(op.slot, op.mw, PosOf(st, op.p), ExtOf(st, op.x), op.lemma))
      [] op.n = "WithM" -> AddObj(st, "tok", WithMorphology(OV(st, op.o), PosOf(st, op.p), op.lemma))
      [] op.n = "WithS" -> AddObj(st, "tok", WithSyntax(OV(st, op.o), op.deprel, op.hd, op.hs))
      [] op.n = "WithX" -> AddObj(st, "tok", WithExtras(OV(st, op.o), ExtOf(st, op.x)))
      [] op.n = "UpdX" -> AddObj(st, "tok", WithExtras(OV(st, op.o),
                                   IF op.c = 0 THEN OV(st, op.o).ex ELSE Merge(OV(st, op.o).ex, CV(st, op.c))))
      [] op.n = "NewL" -> AddCell(st, "L", op.l)
      [] op.n = "PushL" -> SetCell(st, op.c, Append(CV(st, op.c), op.o))
      [] op.n = "PopL" -> IF CV(st, op.c) = <<>> THEN [st EXCEPT !.last = 1] ELSE SetCell(st, op.c, Front(CV(st, op.c)))
      [] op.n = "RevL" -> SetCell(st, op.c, Reverse(CV(st, op.c)))
      [] op.n = "MkDoc" -> LET d == DocOf(st, op.c, op.cut) IN IF d.ok THEN AddObj(st, "doc", DocVal(d)) ELSE Reject(st)
      [] op.n = "ReAnn" -> LET d == ReDocOf(st, op.o, op.c) IN IF d.ok THEN AddObj(st, "doc", DocVal(d)) ELSE Reject(st)
      [] op.n = "DocTok" -> IF op.i > Len(OV(st, op.o).toks) THEN Reject(st)
                            ELSE AddObj(st, "tok", NavTok(OV(st, op.o), op.i))
      [] op.n = "Poke" -> [st EXCEPT !.last = 1]     \* caller tries to alter what an accessor returned

\* ---------------------------------------------------------- caller's moves --
OfKind(seq, k) == { i \in DOMAIN seq : seq[i].kind = k }
OptOf(S) == {0} \cup S
\* the newest token of each span, so that documents of derived tokens get built
OnePerSlot(st, T) == SetToSortSeq({ o \in T : \A q \in T : (OV(st, q).s = OV(st, o).s /\ OV(st, q).sub = OV(st, o).sub) => q <= o }, <)
Ops(st) ==
    LET P == OfKind(st.objs, "pos")  X == OfKind(st.objs, "ext")
        T == OfKind(st.objs, "tok")  D == OfKind(st.objs, "doc")
        CF == OfKind(st.cells, "F")  CX == OfKind(st.cells, "X")  CL == OfKind(st.cells, "L")
        K == {"k1", "k2"}
    IN  { [n |-> "NewF", d |-> << <<"k1", "v1">> >>] }
        \cup { [n |-> "SetF", c |-> c, key |-> k, v |-> "v2"] : c \in CF, k \in K }
        \cup { [n |-> "DelF", c |-> c, key |-> "k1"] : c \in CF }
        \cup { [n |-> "NewX", d |-> << <<"k1", <<"a">>>> >>] }
        \cup { [n |-> "SetX", c |-> c, key |-> k, v |-> "b"] : c \in CX, k \in K }
        \cup { [n |-> "SetX", c |-> c, key |-> "k2", v |-> Falsy[1]] : c \in CX }
        \cup { [n |-> "DelX", c |-> c, key |-> "k1"] : c \in CX }
        \cup { [n |-> "PushX", c |-> c, key |-> k, v |-> "c"] : c \in CX, k \in K }
        \cup { [n |-> "MkPos", u |-> <<"N">>, x |-> x, c |-> c] : x \in {None, <<"x">>}, c \in OptOf(CF) }
        \cup { [n |-> "ReadF", o |-> o] : o \in P }
        \cup { [n |-> "MkExt", c |-> c] : c \in CX }
        \cup { [n |-> "ReadX", o |-> o] : o \in X }
        \cup { [n |-> "ReadItem", o |-> o, key |-> k] : o \in X, k \in K }
        \cup { [n |-> "UpdExt", o |-> o, c |-> c] : o \in X, c \in CX }
        \cup { [n |-> "MkTok", slot |-> sl, mw |-> mw, p |-> p, x |-> x, lemma |-> lm] : sl \in 0..2, mw \in 0..2, p \in OptOf(P), x \in OptOf(X), lm \in {None, <<"l">>} }
        \cup { [n |-> "WithM", o |-> o, p |-> p, lemma |-> lm] : o \in T, p \in OptOf(P), lm \in {None, <<"m">>} }
        \cup { [n |-> "WithS", o |-> o, deprel |-> dr, hd |-> hd, hs |-> hs] : o \in T, dr \in {None, <<"dep">>},
                  hd \in {None, <<0>>}, hs \in {None, <<0>>, <<-1>>} }
        \cup { [n |-> "WithX", o |-> o, x |-> x] : o \in T, x \in OptOf(X) }
        \cup { [n |-> "UpdX", o |-> o, c |-> c] : o \in T, c \in OptOf(CX) }
        \cup { [n |-> "NewL", l |-> l] : l \in IF T = {} THEN {<<>>} ELSE {<<>>, SetToSortSeq(T, <), OnePerSlot(st, T), Reverse(OnePerSlot(st, T))} }
        \cup { [n |-> "PushL", c |-> c, o |-> o] : c \in CL, o \in T }
        \cup { [n |-> "PopL", c |-> c] : c \in CL } \cup { [n |-> "RevL", c |-> c] : c \in CL }
        \cup { [n |-> "MkDoc", c |-> c, cut |-> k] : c \in CL, k \in 0..1 }
        \cup { [n |-> "ReAnn", o |-> o, c |-> c] : o \in D, c \in CL }
        \cup { [n |-> "DocTok", o |-> o, i |-> i] : o \in D, i \in 1..2 }
        \cup { [n |-> "Poke", o |-> o] : o \in D \cup T \cup P }
=============================================================================
