------------------------------- MODULE Equip -------------------------------
(* Which appliances a household gets, and how often it should use them: appliance types, dictionaries of numbers by type, and the
   rules between them.  A type is the sequence of its parts: chest_freezer is <<"chest", "freezer">>.
   A dictionary is a sequence of entries [k |-> type, v |-> number]; Missing says that a type has no entry. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == <<>>
KeysOf(D) == { D[j].k : j \in 1..Len(D) }
ValueOf(D, k) == D[CHOOSE j \in 1..Len(D) : D[j].k = k].v
\* the type itself, else its closest parent, dropping parts from the start
Drop(ty, j) == SubSeq(ty, j + 1, Len(ty))
Closest(ty, K) ==
  LET J == { j \in 0..(Len(ty) - 1) : Drop(ty, j) \in K }
  IN IF J = {} THEN None ELSE Drop(ty, CHOOSE j \in J : \A i \in J : j <= i)
Numbered(ty, n) == IF n = 1 THEN ty ELSE Append(ty, ToString(n))
\* the number of each appliance of the list Ty: the n-th one that resolves to the same type takes the n-th entry, or 0 if there is
\* none; one that resolves to nothing takes its default
Resolved(Ty, D) == [i \in 1..Len(Ty) |-> Closest(Ty[i], KeysOf(D))]
Assigned(Ty, D, default) ==
  LET R == Resolved(Ty, D)
      nth(i) == Cardinality({ j \in 1..i : R[j] = R[i] })
  IN [i \in 1..Len(Ty) |->
       IF R[i] = None THEN default[i]
       ELSE LET key == Numbered(R[i], nth(i)) IN IF key \in KeysOf(D) THEN ValueOf(D, key) ELSE 0]
-----------------------------------------------------------------------------
\* the probabilities of owning a first, second, .. appliance: p for the first one, and n in all (One stands for 1)
RECURSIVE Rest(_, _)
Rest(r, One) == IF r <= One THEN <<r>> ELSE <<One>> \o Rest(r - One, One)
Floor(p, n, One) == <<p>> \o Rest(n - p, One)
Possible(p, n, One) == 0 <= p /\ p <= One /\ p <= n
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* two lists of appliances merged: every quantity that both have, one after the other
Merged(A, B) == [ number |-> A.number + B.number,
                  cols |-> [c \in DOMAIN A.cols \cap DOMAIN B.cols |-> A.cols[c] \o B.cols[c]] ]
-----------------------------------------------------------------------------
(* Which households own an appliance when every number drawn is u (own if u < probability). hh[i]: the subgroup of household i. *)
Owns(u, P, hh) == [i \in 1..Len(hh) |-> [j \in 1..Len(P[1]) |-> u < P[hh[i]][j]]]
HouseholdsOf(counts) ==
  LET RECURSIVE F(_)
      F(k) == IF k > Len(counts) THEN <<>> ELSE [j \in 1..counts[k] |-> k] \o F(k + 1)
  IN F(1)
=============================================================================
