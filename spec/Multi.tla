------------------------------- MODULE Multi -------------------------------
(* A multi simulator: parts with their own households, arguments sliced in household order, getters concatenated.
   Invariant: it cannot be told from one simulator that holds all households in that order.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxParts, MaxSize, MaxSteps, Groups, NKw
VARIABLES sizes, groups, pos, kw, counts, whole, steps, npos
vars == <<sizes, groups, pos, kw, counts, whole, steps, npos>>

RECURSIVE SumTo(_, _)
SumTo(s, p) == IF p = 0 THEN 0 ELSE s[p] + SumTo(s, p - 1)
Off(sz, p) == SumTo(sz, p - 1)
Total(sz) == SumTo(sz, Len(sz))
Slice(a, sz, p) == SubSeq(a, Off(sz, p) + 1, Off(sz, p) + sz[p])
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* what a household accumulates from one step's arguments: position sensitive in every argument
Mix(acc, a, b, c) == 3 * acc + a + 10 * b + 100 * c
MixPart(accs, a, b, c) == [i \in 1..Len(accs) |-> Mix(accs[i], a[i], b[i], c[i])]
StepParts(parts, sz, a, b, c) == [p \in 1..Len(parts) |-> MixPart(parts[p], Slice(a, sz, p), Slice(b, sz, p), Slice(c, sz, p))]

\* subgroups are sets of [attribute, value] pairs; a part is selected when it has all requested pairs
Mask(sz, gs, want) == Flat([p \in 1..Len(sz) |-> [i \in 1..sz[p] |-> want \subseteq gs[p]]])

Args(n, s) == [i \in 1..n |-> (i + s) % 4]
Args2(n, s) == [i \in 1..n |-> (2 * i + s) % 3]
Zeros(n) == [i \in 1..n |-> 0]

Init == /\ sizes \in UNION {[1..m -> 1..MaxSize] : m \in 1..MaxParts}
        /\ groups \in [1..Len(sizes) -> Groups]
        /\ npos \in 0..2 /\ kw \in 0..NKw
        /\ pos = [p \in 1..Len(sizes) |-> Zeros(sizes[p])]
        /\ counts = [p \in 1..Len(sizes) |-> 0]
        /\ whole = Zeros(Total(sizes)) /\ steps = 0
Step == /\ steps < MaxSteps
        /\ LET n == Total(sizes)
               a == IF npos >= 1 THEN Args(n, steps) ELSE Zeros(n)
               b == IF npos >= 2 THEN Args2(n, steps) ELSE Zeros(n)
               c == IF kw >= 1 THEN Args(n, steps + 2) ELSE Zeros(n)
           IN /\ pos' = StepParts(pos, sizes, a, b, c)
              /\ whole' = MixPart(whole, a, b, c)
        /\ counts' = [p \in DOMAIN counts |-> counts[p] + 1]
        /\ steps' = steps + 1
        /\ UNCHANGED <<sizes, groups, npos, kw>>
Spec == Init /\ [][Step]_vars

Concatenation == Flat(pos) = whole
Lockstep == \A p \in DOMAIN counts : counts[p] = steps
MaskPartition == \A w \in Groups : Len(Mask(sizes, groups, w)) = Total(sizes)
MaskExact == \A w \in SUBSET UNION Groups : \A p \in 1..Len(sizes) :
               Slice(Mask(sizes, groups, w), sizes, p) = [i \in 1..sizes[p] |-> \A x \in w : x \in groups[p]]
=============================================================================
