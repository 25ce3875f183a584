------------------------------ MODULE MC_UDLoad ------------------------------
(* The scorer's loader reads a file line by line; it accepts exactly the     *)
(* files whose every block is a valid sentence.                              *)
EXTENDS UDScore, ConlluIO, Json, IOUtils
CONSTANT MaxLines
VARIABLES lines, ld
vars == <<lines, ld>>
A == <<97>>
Alphabet(st) == { [t |-> "blank"], [t |-> "comment"], [t |-> "bad"], [t |-> "range", n |-> 2, form |-> A] }
    \cup { [t |-> "word", id |-> i, form |-> A, head |-> h] : h \in {None, <<0>>, <<1>>, <<2>>}, i \in {<<1>>, <<2>>, <<3>>} }
    \cup { [t |-> "word", id |-> <<1>>, form |-> A, head |-> <<-1>>] }
    \cup (IF st.left > 0 THEN {} ELSE { [t |-> "empty"], [t |-> "range", n |-> 2, form |-> <<32>>], [t |-> "word", id |-> None, form |-> A, head |-> <<0>>],
                                         [t |-> "word", id |-> <<1>>, form |-> <<32>>, head |-> <<0>>] })
\* ranges inside ranges and ids of words inside ranges are unspecified
Specified(st, ln) == st.left > 0 => ln.t # "range" /\ (ln.t = "word" => ln.id = <<1>>)
Init == lines = <<>> /\ ld = LInit
Next == /\ Len(lines) < MaxLines /\ ~ld.err
        /\ \E ln \in Alphabet(ld) : Specified(ld, ln) /\ lines' = Append(lines, ln) /\ ld' = LStep(ld, ln)
Spec == Init /\ [][Next]_vars

Comments(b) == LET c == { i \in DOMAIN b : \A j \in 1..i : b[j].t = "comment" } IN Cardinality(c)
Body(b) == SelectSeq(SubSeq(b, Comments(b) + 1, Len(b)), LAMBDA l : l.t # "empty")
InMw(w, i) == \E j \in 1..(i - 1) : w[j].t = "range" /\ i <= j + w[j].n
Before(w, i) == Cardinality({ j \in 1..(i - 1) : w[j].t = "word" })
BlockValid(b) ==
    LET w == Body(b)  ws == MapSeq(LAMBDA l : l.head, SelectSeq(w, LAMBDA l : l.t = "word")) IN
    /\ \A i \in DOMAIN w : w[i].t \in {"word", "range"}
    /\ \A i \in DOMAIN w : w[i].t = "range" => NoSp(w[i].form) # <<>> /\ i + w[i].n <= Len(w) /\ \A k \in (i + 1)..(i + w[i].n) : w[k].t = "word"
    /\ \A i \in DOMAIN w : (w[i].t = "word" /\ ~InMw(w, i)) => NoSp(w[i].form) # <<>> /\ w[i].id = <<Before(w, i) + 1>>
    /\ SentenceValid(ws)
FileValid == /\ Comments(Rest(lines)) = Len(Rest(lines))
             /\ \A k \in DOMAIN Blocks(lines) : BlockValid(Blocks(lines)[k])
LoadsExactlyValid == LFinish(ld).err <=> ~FileValid
CountsWords == ~LFinish(ld).err => ld.nsent = Len(Blocks(lines)) /\ ld.nwords = Len(WordsOf(lines))
Collect == IF Len(lines) > 0 /\ (Last(lines).t = "blank" \/ ld.err \/ Len(lines) = MaxLines) THEN TLCSet(8, Append(TLCGet(8), lines)) ELSE TRUE
CInit == Init /\ TLCSet(8, <<>>)
CSpec == CInit /\ [][Next]_vars
Write == JsonSerialize(IOEnv.OUT, TLCGet(8))
=============================================================================
