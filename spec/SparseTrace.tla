----------------------------- MODULE SparseTrace -----------------------------
(* Judges recorded uses of SparseTPM against the dense set it stands for. *)
EXTENDS TraceLib
VARIABLES t, l, st, bad
S == INSTANCE Sparse WITH Mats <- {}, NT <- 0, NS <- 0, MaxOps <- 0, D <- 1, dense <- 0, entries <- 0, hist <- 0
Cfg == Traces[t].cfg
Start == [m |-> Cfg.mats]
Wrap(k, n) == (k % n) + 1
At(m, k) == m[Wrap(k, Len(m))]

\* a row that a state draws from: its own, or the one of the dead state's replacement
RowFor(m, s) == IF \A j \in 1..Len(m[s + 1]) : m[s + 1][j] = 0 THEN m[Cfg.dead + 1] ELSE m[s + 1]
SampleClauses(e) ==
  LET m == At(st.m, e.time)
  IN [ one_per_household |-> Len(e.out) = Len(e.states),
       successor_supported |-> \A h \in 1..Min2(Len(e.out), Len(e.states)) : S!Supported(RowFor(m, e.states[h]), e.out[h] + 1),
       states_untouched |-> e.same ]
\* one draw from the middle of each of the D cells of [0, 1): every successor gets exactly its share of the cells
SweepClauses(e) ==
  LET r == At(st.m, e.time)[e.state + 1]
  IN [ shares_exact |-> e.scripted => \A j \in 1..Len(r) : Cardinality({h \in 1..Len(e.out) : e.out[h] = j - 1}) = r[j],
       successor_supported |-> \A h \in 1..Len(e.out) : S!Supported(r, e.out[h] + 1) ]
ReadClauses(e) == [ read_is_last_assigned |-> e.m = At(st.m, e.time) ]
IterClauses(e) == [ iteration_in_order |-> e.ms = st.m ]
NestClauses(e) == [ nested_iteration |-> e.n = Len(st.m) * Len(st.m) ]
SizeClauses(e) == [ size |-> e.shape = <<Len(st.m), Len(Cfg.mats[1]), Len(Cfg.mats[1])>> /\ e.nt = Len(st.m)
                             /\ e.ns = Len(Cfg.mats[1]) /\ e.dead = Cfg.dead ]
RefuseClauses(e) == [ wrong_shape_refused |-> e.refused ]
LensClauses(e) == [ lengths_checked |-> e.refused = (\E i, j \in 1..4 : e.lens[i] # e.lens[j]) ]

Clauses(e) ==
  CASE Raised(e)        -> {"raised"}
    [] e.op = "assign"  -> {}
    [] e.op = "read"    -> Failing(ReadClauses(e))
    [] e.op = "iter"    -> Failing(IterClauses(e))
    [] e.op = "nest"    -> Failing(NestClauses(e))
    [] e.op = "size"    -> Failing(SizeClauses(e))
    [] e.op = "sample"  -> Failing(SampleClauses(e))
    [] e.op = "sweep"   -> Failing(SweepClauses(e))
    [] e.op = "refuse"  -> Failing(RefuseClauses(e))
    [] e.op = "lens"    -> Failing(LensClauses(e))
    [] OTHER            -> {"unknown_event"}
NextSt(e) ==
  IF e.op = "assign" THEN [m |-> [st.m EXCEPT ![Wrap(e.time, Len(st.m))] = e.m]] ELSE st
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = Start /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = NextSt(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
