---------------------------- MODULE Gen_Document ----------------------------
(* Writes the bounded universes of MC_Document as replay scenarios.          *)
EXTENDS MC_Document

HeadScens(m) == UNION { { [toks |-> [ i \in 1..n |-> WithHead(Plain(i - 1), IF i = k THEN o ELSE b) ], sents |-> <<ss>>]
                        : ss \in Splits(n), k \in 1..n, o \in HeadOptions(n), b \in {<<None, None>>, <<<<-1>>, None>>} }
                      : n \in 1..MaxT }
TokScens(m) == { [toks |-> ts, sents |-> None] : ts \in SeqsOf(StructToks, 0, MaxT) }
SentScens(m) == { [toks |-> [ i \in 1..n |-> Plain(i - 1) ], sents |-> <<ss>>] : n \in 1..MaxT, ss \in SeqsOf(SentSpans, 0, 3) }
\* the product heads^n is unfolded by the driver: one history per head assignment, all sentence splits
SynScens(m) == { [n |-> n, vals |-> SetToSeq(SynVals(n)), splits |-> SetToSeq(Splits(n))] : n \in 1..MaxT }

Scens(m) == CASE Mode = "tokens" -> TokScens(0) [] Mode = "heads" -> HeadScens(0)
           [] Mode = "sents" -> SentScens(0) [] Mode = "syntax" -> SynScens(0)
Write == TLCGet("stats").diameter >= 0 /\ JsonSerialize(IOEnv.OUT, SetToSeq(Scens(0)))
GInit == toks = <<>> /\ sents = <<>> /\ phase = "" /\ doc = <<>>
GSpec == GInit /\ [][FALSE]_vars
=============================================================================
