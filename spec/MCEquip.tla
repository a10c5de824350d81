------------------------------ MODULE MCEquip ------------------------------
(* Every small dictionary and list of appliances; a shop that hands out the appliances one at a time, counting. *)
EXTENDS Equip, Json
CONSTANTS MaxApps, One, MaxN, Depth, Gen
VARIABLES dict, list, count, out, pn
vars == <<dict, list, count, out, pn>>
Types == { <<"a">>, <<"c", "a">>, <<"d", "c", "a">>, <<"b">>, <<"c", "b">> }
Dicts == { D \in [{ <<"a">>, <<"a", "2">>, <<"a", "3">>, <<"c", "a">>, <<"c", "a", "2">>, <<"b">> } -> {0, 1}] : TRUE }
AsDict(f) == LET S == { k \in DOMAIN f : f[k] = 1 }
                 RECURSIVE G(_)
                 G(R) == IF R = {} THEN <<>> ELSE LET k == CHOOSE x \in R : TRUE IN <<[k |-> k, v |-> 10 * Len(k) + Cardinality(R)]>> \o G(R \ {k})
             IN G(S)
Init == /\ dict \in { AsDict(f) : f \in Dicts } /\ list = <<>> /\ count = [k \in { <<"a">>, <<"c", "a">>, <<"b">> } |-> 0] /\ out = <<>>
        /\ pn \in { x \in (0..One) \X (0..MaxN) : dict # <<>> => x = <<0, 0>> }
\* one more appliance
Next == /\ Len(list) < (IF Gen THEN Depth ELSE MaxApps)
        /\ \E ty \in Types :
             LET k == Closest(ty, KeysOf(dict))
                 n == count[k] + 1
             IN /\ list' = Append(list, ty)
                /\ IF k \in DOMAIN count
                   THEN /\ count' = [count EXCEPT ![k] = n]
                        /\ out' = Append(out, IF Numbered(k, n) \in KeysOf(dict) THEN ValueOf(dict, Numbered(k, n)) ELSE 0)
                   ELSE count' = count /\ out' = Append(out, -Len(list) - 1)
        /\ UNCHANGED <<dict, pn>>
Spec == Init /\ [][Next]_vars
\* dictionaries where a numbered entry stands without the first one can only be asked for by their own name
CountingIsTheRule == out = Assigned(list, dict, [i \in 1..Len(list) |-> -i])
LaterDoNotChangeEarlier == \A n \in 0..Len(list) : SubSeq(out, 1, n) = Assigned(SubSeq(list, 1, n), dict, [i \in 1..n |-> -i])
NumberIsKept == Possible(pn[1], pn[2], One) =>
   LET s == Floor(pn[1], pn[2], One) IN Sum(s) = pn[2] /\ s[1] = pn[1] /\ \A i \in 1..Len(s) : s[i] \in 0..One
\* enough appliances of a type, with the ownership that Floor gives: the household owns as many of them as it should on average
MeanOwned == (Len(list) = 0 /\ Possible(pn[1], pn[2], One)) =>
   LET s == Floor(pn[1], pn[2], One)
       D == [j \in 1..Len(s) |-> [k |-> Numbered(<<"a">>, j), v |-> s[j]]]
       L == [j \in 1..(Len(s) + 1) |-> IF j % 2 = 0 THEN <<"a">> ELSE <<"c", "a">>]
   IN Sum(Assigned(L, D, [j \in 1..(Len(s) + 1) |-> 0])) = pn[2]
GenPrint == (Gen /\ Len(list) = Depth) => PrintT(<<"BEH", ToJson([dict |-> dict, list |-> list])>>)
=============================================================================
