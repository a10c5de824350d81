----------------------------- MODULE Occupancy -----------------------------
(* Persons are simulated grouped by person type; households are put together from them again.
   layout: sequence of [types, n]: n households whose residents have the person types listed.
   Seats are handed out in the order subgroup, resident, household; a household counts the persons on its own seats.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kinds, Counts, MaxSubs, Acts
VARIABLES layout, sub
vars == <<layout, sub>>

RECURSIVE Sum(_, _)
Sum(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + Sum(f, s \ {x})
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Before(ly, g) == Sum([i \in 1..(g - 1) |-> ly[i].n], 1..(g - 1))
NHH(ly) == Before(ly, Len(ly) + 1)
HouseTypes(ly) == Flat([g \in 1..Len(ly) |-> [i \in 1..ly[g].n |-> ly[g].types]])
\* the seats: <<type, household>> in the order in which they are handed out
Seats(ly) == Flat([g \in 1..Len(ly) |-> Flat([k \in 1..Len(ly[g].types) |-> [i \in 1..ly[g].n |-> <<ly[g].types[k], Before(ly, g) + i>>]])])
TypesOf(ly) == LET ss == Seats(ly) IN {ss[i][1] : i \in DOMAIN ss}
HhOf(ly, ty) == LET own == SelectSeq(Seats(ly), LAMBDA s : s[1] = ty) IN [i \in DOMAIN own |-> own[i][2]]

\* counts of a household and of the whole
Doing(ly, sb, a, h) == LET tys == DOMAIN sb
                          f == [ty \in tys |-> LET hh == HhOf(ly, ty) IN Cardinality({i \in DOMAIN hh : sb[ty][i] = a /\ hh[i] = h})]
                      IN Sum(f, tys)
Occ(ly, sb, h) == Len(HouseTypes(ly)[h]) - Doing(ly, sb, "away", h)
ActOcc(ly, sb, h) == Occ(ly, sb, h) - Doing(ly, sb, "sleeping", h)

Init == /\ layout \in UNION {[1..m -> [types : Kinds, n : Counts]] : m \in 1..MaxSubs}
        /\ NHH(layout) > 0
        /\ sub = [ty \in TypesOf(layout) |-> [i \in DOMAIN HhOf(layout, ty) |-> "away"]]
Move == \E ty \in TypesOf(layout) : \E i \in DOMAIN sub[ty], a \in Acts :
          sub' = [sub EXCEPT ![ty][i] = a] /\ UNCHANGED layout
Next == Move
Spec == Init /\ [][Next]_vars

HH == 1..NHH(layout)
NobodyLost == \A h \in HH : Sum([a \in Acts |-> Doing(layout, sub, a, h)], Acts) = Len(HouseTypes(layout)[h])
EverybodyOnce == \A a \in Acts : Sum([h \in HH |-> Doing(layout, sub, a, h)], HH)
                                 = Sum([ty \in DOMAIN sub |-> Cardinality({i \in DOMAIN sub[ty] : sub[ty][i] = a})], DOMAIN sub)
Ordered == \A h \in HH : 0 <= ActOcc(layout, sub, h) /\ ActOcc(layout, sub, h) <= Occ(layout, sub, h)
                         /\ Occ(layout, sub, h) <= Len(HouseTypes(layout)[h])
OwnHousehold == \A h \in HH, ty \in TypesOf(layout) :
   Cardinality({i \in DOMAIN sub[ty] : HhOf(layout, ty)[i] = h}) = Cardinality({k \in DOMAIN HouseTypes(layout)[h] : HouseTypes(layout)[h][k] = ty})

\* models that only count: digits of a label
Digit(x, base, i) == (x \div (base ^ i)) % base
Min2(a, b) == IF a < b THEN a ELSE b
Gains(occ, act) == 147 * act + 84 * (occ - act)
=============================================================================
