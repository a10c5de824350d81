------------------------------- MODULE Sparse -------------------------------
(* A sparse set of transition matrices is the dense set it stands for.
   dense: time -> matrix (rows of numerators over D); entries: the stored [time, from, to] -> value list.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Mats, NT, NS, MaxOps, D
VARIABLES dense, entries, hist
vars == <<dense, entries, hist>>

Times == 0..(NT - 1)
Zero(n) == [i \in 1..n |-> [j \in 1..n |-> 0]]
\* ---- the sparse representation
EntriesOf(t, m) == {<<t, i, j, m[i][j]>> : i \in 1..Len(m), j \in 1..Len(m)}
Stored(t, m) == {x \in EntriesOf(t, m) : x[4] # 0}
ReadEntries(es, t, n) ==
  [i \in 1..n |-> [j \in 1..n |-> IF \E x \in es : x[1] = t /\ x[2] = i /\ x[3] = j
                                   THEN (CHOOSE x \in es : x[1] = t /\ x[2] = i /\ x[3] = j)[4] ELSE 0]]
AssignEntries(es, t, m) == {x \in es : x[1] # t} \cup Stored(t, m)

\* ---- drawing a successor: the entry of the row whose cumulated interval holds u (numerator over U)
RECURSIVE Cum(_, _)
Cum(row, j) == IF j = 0 THEN 0 ELSE row[j] + Cum(row, j - 1)
Supported(row, j) == j \in 1..Len(row) /\ row[j] > 0
\* u and the row have the same unit here
Inverts(row, j, u) == j \in 1..Len(row) /\ Cum(row, j - 1) <= u /\ u < Cum(row, j)

Init == /\ dense \in [Times -> Mats] /\ entries = UNION {Stored(t, dense[t]) : t \in Times} /\ hist = <<>>
Assign(t, m) == /\ dense' = [dense EXCEPT ![t] = m]
                /\ entries' = AssignEntries(entries, t, m)
                /\ hist' = Append(hist, <<t, m>>)
\* reading, iterating, sampling, saving and loading change nothing
Look(what) == /\ hist' = Append(hist, what) /\ UNCHANGED <<dense, entries>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E t \in Times, m \in Mats : Assign(t, m)
           \/ \E w \in {<<"save">>, <<"iterate">>, <<"sample">>} : Look(w)
Spec == Init /\ [][Next]_vars

Same == \A t \in Times : ReadEntries(entries, t, NS) = dense[t]
NoZeros == \A x \in entries : x[4] # 0
OneEach == Cardinality({<<x[1], x[2], x[3]>> : x \in entries}) = Cardinality(entries)
\* inverting never leaves the support and is total on rows that are distributions
Inversion == \A t \in Times, i \in 1..NS : Cum(dense[t][i], NS) = D =>
  \A u \in 0..(D - 1) : \E j \in 1..NS : /\ Inverts(dense[t][i], j, u) /\ Supported(dense[t][i], j)
                                         /\ \A k \in 1..NS : Inverts(dense[t][i], k, u) => k = j
=============================================================================
