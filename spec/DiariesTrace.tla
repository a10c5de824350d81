---------------------------- MODULE DiariesTrace ----------------------------
(* Judges what the real functions return for sets of diaries.  cfg.D: the diaries, in states 0 .. cfg.K - 1 (the driver
   translates labels).  Probabilities are recorded in parts of SC.                                                    *)
EXTENDS TraceLib
VARIABLES t, l, bad
M == INSTANCE Diaries WITH Sets <- {}, D <- <<>>, i <- 0, emitted <- {}
Cfg == Traces[t].cfg
D == Cfg.D
K == Cfg.K
N == Len(D)
T == M!T(D)
Times == 0..(T - 1)
Ss == 0..(K - 1)
SC == 100000
\* p (in parts of SC) is n out of m
Share(p, n, m) == LET x == p * m - n * SC IN x <= m /\ -x <= m
Bag(s) == [x \in Range(s) |-> Cardinality({k \in 1..Len(s) : s[k] = x})]
SetBag(S, f(_)) == [x \in {f(y) : y \in S} |-> Cardinality({y \in S : f(y) = x})]
Sum(S, f(_)) == M!Sum(S, f)

Trans(e) ==
  LET want == IF e.same THEN M!AllTrans(D) ELSE M!Changes(D, e.ign)
      got == e.out
      key(g) == <<g[1], g[2], g[3], g[4]>>
  IN [ every_change_once |-> Len(got) = Cardinality(want) /\ {key(got[k]) : k \in 1..Len(got)} = want,
       in_time_order |-> \A k \in 1..(Len(got) - 1) : got[k][1] <= got[k + 1][1],
       change_durations |-> e.dur => \A k \in 1..Len(got) : key(got[k]) \in want => got[k][5] = M!Duration(D, got[k][2], got[k][1], e.ign),
       rebuildable |-> (~e.same /\ ~e.ign) =>
            \A p \in 1..N, x \in Times : M!Rebuilt({key(got[k]) : k \in 1..Len(got)}, p, M!At(D, p, T - 1), x) = M!At(D, p, x) ]
\* rows of n outcomes given by counts c(b): the shares, or (nothing counted) what unused says
Row(row, S, c(_), unused(_)) ==
  LET tot == Sum(S, c) IN IF tot = 0 THEN \A b \in S : row[b + 1] = unused(b) ELSE \A b \in S : Share(row[b + 1], c(b), tot)
Tpms(e) ==
  LET A == 0..(e.n - 1)
      stay(a) == [b \in A |-> IF b = a THEN SC ELSE 0]
  IN [ one_matrix_per_time |-> Len(e.tpm) = T /\ \A x \in 1..Len(e.tpm) : Len(e.tpm[x]) = e.n /\ \A a \in 1..e.n : Len(e.tpm[x][a]) = e.n,
       observed_proportions |-> \A x \in Times, a \in A :
           Row(e.tpm[x + 1][a + 1], A, LAMBDA b : M!Count(D, M!Moment(D, x, e.algo), a, b), LAMBDA b : stay(a)[b]) ]
TpmDur(e) ==
  LET A == 0..(e.n - 1)
      L == 0..T
      Const(a) == Cardinality({p \in 1..N : M!Constant(D, p) /\ M!At(D, p, 0) = a})
      mo(x) == M!Moment(D, x, e.algo)
      one(n) == IF n = 0 THEN SC ELSE 0
      cnt(x, a, b) == IF x = 0 /\ a = b THEN Const(a) ELSE M!ChangeCount(D, mo(x), a, b, e.ign)
      dur(x, b, n) == IF x = 0 /\ n = T THEN Const(b) ELSE M!DurCount(D, mo(x), b, n, e.ign)
      durp(x, a, b, n) == IF x = 0 /\ a = b /\ n = T THEN Const(a) ELSE M!DurCountPrev(D, mo(x), a, b, n, e.ign)
  IN [ one_matrix_per_time |-> Len(e.tpm) = T /\ Len(e.dur) = T /\ Len(e.prev) = T,
       change_proportions |-> \A x \in Times, a \in A :
           Row(e.tpm[x + 1][a + 1], A, LAMBDA b : cnt(x, a, b), LAMBDA b : IF a = b THEN SC ELSE 0),
       duration_proportions |-> \A x \in Times, b \in A : Row(e.dur[x + 1][b + 1], L, LAMBDA n : dur(x, b, n), one),
       duration_given_previous |-> \A x \in Times, a \in A, b \in A :
           Row(e.prev[x + 1][a + 1][b + 1], L, LAMBDA n : durp(x, a, b, n), one) ]
Init0(e) ==
  LET c(s, n) == Cardinality({p \in 1..N : M!At(D, p, 0) = s /\ M!First(D, p) = n})
  IN [ first_durations |-> Len(e.pdf) = K /\ \A s \in Ss : Len(e.pdf[s + 1]) = T + 1 /\
                              Row(e.pdf[s + 1], 0..T, LAMBDA n : c(s, n), LAMBDA n : IF n = 0 THEN SC ELSE 0) ]
Pdf(e) ==
  [ pdf_of_counts |-> Len(e.out) = Len(e.counts) /\ \A k \in 1..Len(e.counts) :
       LET tot == SumSeq(e.counts[k]) IN
         IF tot = 0 THEN e.valid => \A n \in 1..Len(e.counts[k]) : e.out[k][n] = (IF n = 1 THEN SC ELSE 0)
         ELSE \A n \in 1..Len(e.counts[k]) : Share(e.out[k][n], e.counts[k][n], tot) ]
\* changes of a person that does one or two things at once: what it did before is no longer done at all
Second(e) ==
  LET S2 == Cfg.E
      was(d, p, x) == d[p][IF x = 0 THEN 1 ELSE x]
      is(d, p, x) == d[p][x + 1]
      gone(d, p, x) == is(D, p, x) # was(d, p, x) /\ is(S2, p, x) # was(d, p, x)
      first == {<<x, p, is(D, p, x), was(D, p, x)>> : <<x, p>> \in {y \in Times \X (1..N) : gone(D, y[2], y[1])}}
      second == {<<x, p, is(S2, p, x), was(S2, p, x)>> : <<x, p>> \in {y \in Times \X (1..N) : gone(S2, y[2], y[1])}}
      got == {<<k, e.out[k]>> : k \in 1..Len(e.out)}
      n(c) == (IF c \in first THEN 1 ELSE 0) + (IF c \in second THEN 1 ELSE 0)
  IN [ every_change_once |-> /\ Len(e.out) = Cardinality(first) + Cardinality(second)
                             /\ \A c \in first \cup second : Cardinality({g \in got : g[2] = c}) = n(c),
       in_time_order |-> \A k \in 1..(Len(e.out) - 1) : e.out[k][1] <= e.out[k + 1][1] ]
\* households: members of one household, on one day, that do the same change
Households(e) ==
  LET ch == M!Changes(D, FALSE)
      k(c) == <<c[1], c[3], c[4], e.hh[c[2]], e.day[c[2]]>>
      want == SetBag(ch, k)
      got == [x \in {<<g[1], g[2], g[3], g[4], g[5]>> : g \in Range(e.out)} |-> 0]
  IN [ household_changes |-> /\ Len(e.out) = Cardinality(DOMAIN want)
                             /\ \A g \in Range(e.out) : LET x == <<g[1], g[2], g[3], g[4], g[5]>> IN x \in DOMAIN want /\ want[x] = g[6] ]
Convert(e) ==
  [ labels_sorted_once |-> \A k \in 1..(Len(e.lab) - 1) : e.lab[k] < e.lab[k + 1],
    labels_are_used |-> Range(e.lab) = {e.map[s + 1] : s \in M!States(D)},
    merged_states |-> \A p \in 1..N, x \in Times : e.out[p][x + 1] + 1 \in 1..Len(e.lab) /\ e.lab[e.out[p][x + 1] + 1] = e.map[D[p][x + 1] + 1] ]
\* ---- durations
RunBag == SetBag(M!Runs(D), LAMBDA r : <<r[4], r[3]>>)
Durs(e) == [ partition_into_runs |-> Bag(e.out) = RunBag,
             fills_all_diaries |-> SumSeq([k \in 1..Len(e.out) |-> e.out[k][1]]) = N * T ]
ByState(e) ==
  [ states_of_the_diaries |-> {e.out[k].s : k \in 1..Len(e.out)} = M!States(D) /\ Len(e.out) = Cardinality(M!States(D)),
    grouped_durations |-> \A k \in 1..Len(e.out) : Bag(e.out[k].d) = SetBag({r \in M!Runs(D) : r[3] = e.out[k].s}, LAMBDA r : r[4]) ]
Counted(e) == [ counted |-> e.out = [k \in 1..Len(e.lab) |-> <<e.lab[k], Cardinality({y \in 1..Len(e.arr) : e.arr[y] = e.lab[k]})>>] /\ Range(e.lab) = Range(e.arr) /\ \A k \in 1..(Len(e.lab) - 1) : e.lab[k] < e.lab[k + 1] ]
\* ---- metrics between two sets of diaries: D (simulated) and Cfg.E (measured)
Cum(d, s, n) == Cardinality({r \in M!Runs(d) : r[3] = s /\ r[4] <= n})
Tot(d, s) == Cardinality({r \in M!Runs(d) : r[3] = s})
Abs(x) == IF x < 0 THEN -x ELSE x
\* |cum/tot - cum'/tot'| as a share of tot * tot'
Gap(s, n) == LET E == Cfg.E
                 a == IF Tot(D, s) = 0 THEN 1 ELSE Tot(D, s)
                 b == IF Tot(E, s) = 0 THEN 1 ELSE Tot(E, s)
             IN Abs(Cum(D, s, n) * b - Cum(E, s, n) * a)
Den(s) == (IF Tot(D, s) = 0 THEN 1 ELSE Tot(D, s)) * (IF Tot(Cfg.E, s) = 0 THEN 1 ELSE Tot(Cfg.E, s))
DurDist(e) ==
  [ states_of_either |-> {e.out[k].s : k \in 1..Len(e.out)} = M!States(D) \cup M!States(Cfg.E),
    distance_of_cdfs |-> \A k \in 1..Len(e.out) : LET o == e.out[k] IN
       IF e.avg THEN Share(o.v[1], Sum(0..T, LAMBDA n : Gap(o.s, n)), Den(o.s) * (T + 1))
       ELSE Len(o.v) = T + 1 /\ \A n \in 0..T : Share(o.v[n + 1], Gap(o.s, n), Den(o.s)) ]
SumAt(d, x) == SumSeq([p \in 1..Len(d) |-> d[p][x + 1]])
AvgGap(x) == Abs(SumAt(D, x) * Len(Cfg.E) - SumAt(Cfg.E, x) * N)
Average(e) ==
  [ average_gap |-> IF e.avg THEN Share(e.out[1], Sum(Times, AvgGap), N * Len(Cfg.E) * T)
                    ELSE Len(e.out) = T /\ \A x \in Times : Share(e.out[x + 1], AvgGap(x), N * Len(Cfg.E)) ]
Edges == {<<c[1], c[4], c[3]>> : c \in M!AllTrans(D)}
Graph(e) ==
  [ network_size |-> e.size = Cardinality({<<x, s>> \in Times \X Ss : \E p \in 1..N : M!At(D, p, x) = s}),
    network_density |-> Share(e.density, Cardinality(Edges), T * Cardinality(M!States(D)) * Cardinality(M!States(D))),
    centrality |-> Share(e.central, N * T, Cardinality(Edges)),
    homophily |-> Share(e.homo, Cardinality({c \in M!AllTrans(D) : c[3] = c[4]}), N * T) ]
Sparsity(e) == [ sparsity |-> Share(e.out, Cardinality({k \in 1..Len(e.flat) : e.flat[k] = 0}), Len(e.flat)) ]
Clauses(e) ==
  (CASE Raised(e) -> {"raised"}
     [] e.op = "trans" -> Failing(Trans(e))
     [] e.op = "tpms" -> Failing(Tpms(e))
     [] e.op = "tpmdur" -> Failing(TpmDur(e))
     [] e.op = "first" -> Failing(Init0(e))
     [] e.op = "pdf" -> Failing(Pdf(e))
     [] e.op = "second" -> Failing(Second(e))
     [] e.op = "hh" -> Failing(Households(e))
     [] e.op = "convert" -> Failing(Convert(e))
     [] e.op = "durs" -> Failing(Durs(e))
     [] e.op = "bystate" -> Failing(ByState(e))
     [] e.op = "count" -> Failing(Counted(e))
     [] e.op = "durdist" -> Failing(DurDist(e))
     [] e.op = "average" -> Failing(Average(e))
     [] e.op = "graph" -> Failing(Graph(e))
     [] e.op = "sparsity" -> Failing(Sparsity(e))
     [] OTHER -> {"unknown_event"})
  \cup (IF ~Raised(e) /\ ~e.untouched THEN {"inputs_untouched"} ELSE {})
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, bad>>
=============================================================================
