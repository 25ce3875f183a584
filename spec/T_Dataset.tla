------------------------------ MODULE T_Dataset ------------------------------
EXTENDS Dataset, Trace
\* state: what earlier passes in this history delivered: sequence of [ds, seed, it, m, data, out]
DsInit == <<>>
SameData(a, b) == a.data = b.data /\ a.m = b.m
JudgeC14(s, r) ==
    IF r.k = "raw" THEN [st |-> s, bad |-> Clause("every-pass-reads-the-whole-source", r.ok /\ r.out = r.data)]
    ELSE
    [st |-> Append(s, [ds |-> r.ds, seed |-> r.seed, it |-> r.it, m |-> r.m, data |-> r.data, out |-> r.out]),
     bad |-> Clause("pass-failed", r.ok)
        \cup (IF ~r.ok THEN {} ELSE
          Clause("every-item-exactly-once", IsPerm(r.data, r.out))
          \cup (IF ~IsPerm(r.data, r.out) THEN {} ELSE Clause("items-stay-within-a-window", WindowShuffle(r.data, r.out, r.m)))
          \cup Clause("same-seed-same-order",
                 r.seed = None \/ \A i \in DOMAIN s : (SameData(s[i], r) /\ s[i].seed = r.seed /\ s[i].it = r.it) => s[i].out = r.out)
          \* only where a coincidence is practically impossible
          \cup Clause("passes-and-seeds-differ",
                 Len(r.data) < 60 \/ r.m < 12 \/ r.seed = None \/
                 \A i \in DOMAIN s : (SameData(s[i], r) /\ s[i].seed # None /\ <<s[i].seed, s[i].it>> # <<r.seed, r.it>>) => s[i].out # r.out)
          \cup Clause("large-windows-are-shuffled", Len(r.data) < 60 \/ r.m < 12 \/ r.out # r.data))]
=============================================================================
