----------------------------- MODULE SurveyTrace -----------------------------
(* What the real parser makes of a made-up survey.  cfg: households H <<residents, type, work, revenue>>, persons P
   <<household, age, life situation, salary, position, country, gender>>, diaries A <<household, person, day, missing day,
   all on the same day, quarter, weekday, begins, ends>> with segments seg <<main, secondary, periods>> (positions in
   codes; code 0: no secondary activity), ratings and labels of the codes.  st keeps where people were and the diaries
   (labels, or sums over households) the next events are about.  Probabilities are in parts of SC.                    *)
EXTENDS TraceLib
VARIABLES t, l, st, bad
S == INSTANCE Survey WITH Cells <- {}, MaxLen <- 0, diary <- <<>>, ini <- 0, fin <- 0, i <- 0, home <- FALSE, before <- FALSE, was <- FALSE, hist <- <<>>
M == INSTANCE Diaries WITH Sets <- {}, D <- <<>>, i <- 0, emitted <- {}
Cfg == Traces[t].cfg
A == Cfg.A
N == Len(A)
T == 144
Times == 0..(T - 1)
SC == 100000
Share(p, n, m) == LET x == p * m - n * SC IN x <= m /\ -x <= m
\* ---- activities
Code(k) == Cfg.codes[k]
Travels(k) == Code(k) >= 900 /\ Code(k) \notin {997, 998, 999}
Cells(d) == [x \in 1..Len(Cfg.seg[d]) |-> LET s == Cfg.seg[d][x] IN [go |-> Travels(s[1]) \/ Travels(s[2]), r |-> Cfg.home[s[1]] + Cfg.home[s[2]]]]
\* where the day ended: the next day begins there
EndOf(d) == IF A[d][9] = -2 THEN A[d + 1][8] ELSE A[d][9]
HomeOf(d) == LET c == Cells(d) IN [x \in 1..Len(c) |-> S!Where(c, A[d][8], EndOf(d), x)]
RECURSIVE Expand(_, _)
Expand(seg, k) == IF k > Len(seg) THEN <<>> ELSE [x \in 1..seg[k][3] |-> k] \o Expand(seg, k + 1)
Awake(d, k) == Code(Cfg.seg[d][k][1]) \notin {110, 132}
\* ---- subgroups
Nres(d) == Cfg.H[A[d][1]][1]
PersonsOf(h) == {p \in 1..Len(Cfg.P) : Cfg.P[p][1] = h}
RECURSIVE SumP(_, _)
SumP(X, c) == IF X = {} THEN 0 ELSE LET p == CHOOSE y \in X : TRUE IN Cfg.P[p][c] + SumP(X \ {p}, c)
Satisfies(d, r) ==
  LET p == Cfg.P[A[d][2]]
      h == Cfg.H[A[d][1]]
      V == Range(r.v)
  IN CASE r.k = "wday" -> A[d][7] \in V
       [] r.k = "quarter" -> A[d][6] \in V
       [] r.k = "nres" -> h[1] \in V
       [] r.k = "htype" -> h[2] \in V
       [] r.k = "revenue" -> h[4] \in V
       [] r.k = "life" -> p[3] \in V
       [] r.k = "salary" -> p[4] \in V
       [] r.k = "pos" -> p[5] \in V
       [] r.k = "land" -> p[6] \in V
       [] r.k = "gender" -> p[7] \in V
       [] r.k = "age" -> p[2] >= r.v[1] /\ p[2] < r.v[2]
       [] r.k = "meanage" -> LET X == PersonsOf(A[d][1]) IN SumP(X, 2) >= r.v[1] * Cardinality(X) /\ SumP(X, 2) < r.v[2] * Cardinality(X)
       [] r.k = "work" ->
            CASE r.w = "1_retired" -> h[1] = 1 /\ p[3] = 8
              [] r.w = "2_retired" -> h[1] = 2 /\ Cardinality(PersonsOf(A[d][1])) = 2 /\ \A x \in PersonsOf(A[d][1]) : Cfg.P[x][3] = 8
              [] r.w = "1_fulltime" -> h[3] = 2
              [] r.w = "1_halftime" -> h[3] = 3
              [] r.w = "2_fulltime" -> h[3] = 4
              [] r.w = "1_fulltime_1_halftime" -> h[3] = 5
              [] r.w = "3_fulltime" -> h[3] = 6
              [] r.w = "other" -> h[3] = 7
              [] OTHER -> FALSE
       [] OTHER -> FALSE
Quality(d, f) ==
  /\ f[1] = 1 => Cardinality({A[x][2] : x \in {y \in 1..N : A[y][1] = A[d][1]}}) = Nres(d)
  /\ f[2] = 1 => ~(A[d][4] # 0 /\ A[d][3] = A[d][4])
  /\ f[3] = 1 => A[d][5] = 1 \/ Nres(d) = 1
InSub(d, e) == Quality(d, e.flags) /\ \A k \in 1..Len(e.req) : Satisfies(d, e.req[k])
Rows(e) == SelectSeq([d \in 1..N |-> d], LAMBDA d : InSub(d, e))
\* ---- labels
Other(x) == IF x = "-" THEN "other" ELSE x
Label(d, k, kind) ==
  LET seg == Cfg.seg[d][k]
      m == Other(Cfg.tab[kind][seg[1]])
      s == Other(Cfg.tab[kind][seg[2]])
  IN IF ~st.home[d][k] THEN "away"
     ELSE IF m = "other" /\ Code(seg[2]) # 0 THEN s
     ELSE m
Labelled(d, kind) == LET lb == [k \in 1..Len(Cfg.seg[d]) |-> Label(d, k, kind)] IN [x \in 1..T |-> lb[st.ix[d][x]]]
\* ---- households: the diaries of one household on one day
Groups(R) == {<<A[d][1], A[d][3]>> : d \in Range(R)}
Members(R, g) == {d \in Range(R) : A[d][1] = g[1] /\ A[d][3] = g[2]}
RECURSIVE Add(_, _)
Add(X, f) == IF X = {} THEN 0 ELSE LET d == CHOOSE y \in X : TRUE IN f[d] + Add(X \ {d}, f)
B2(b) == IF b THEN 1 ELSE 0
ForWork(c) == (c >= 200 /\ c < 400) \/ (c >= 900 /\ c <= 940)
PersonState(kind) ==
  [d \in 1..N |-> [k \in 1..Len(Cfg.seg[d]) |->
     LET seg == Cfg.seg[d][k] IN
     IF kind = "4_States" THEN 10 * B2(st.home[d][k]) + B2(Awake(d, k))
     ELSE IF st.home[d][k] THEN B2(Cfg.tab.energy[seg[1]] # "not active" /\ Cfg.tab.energy[seg[2]] # "not active")
     ELSE IF ForWork(Code(seg[1])) \/ ForWork(Code(seg[2])) THEN 7 ELSE 49]]
\* in any order
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET g == CHOOSE y \in X : TRUE IN <<g>> \o SeqOf(X \ {g})
Sums(R, f) == LET G == SeqOf(Groups(R)) IN
  [g \in 1..Len(G) |-> LET X == Members(R, G[g]) IN [x \in 1..T |-> Add(X, [d \in X |-> f[d][st.ix[d][x]]])]]
Grouped(e) == LET R == Rows(e)
                  s == Sums(R, PersonState(e.kind))
              IN [g \in 1..Len(s) |-> [x \in 1..T |-> ToString(s[g][x])]]

\* the runs <<diary, begins, lasts, state, all day long>> (the day is a circle)
RunsOf(D) ==
  UNION {LET C == {x \in Times : M!At(D, p, x) # M!Before(D, p, x)} IN
         IF C = {} THEN {<<p, 0, T, D[p][1], TRUE>>}
         ELSE {<<p, x, LET L == {y \in C : y > x} IN (IF L = {} THEN T + (CHOOSE y \in C : \A z \in C : y <= z) ELSE (CHOOSE y \in L : \A z \in L : y <= z)) - x,
                 D[p][x + 1], FALSE>> : x \in C} : p \in 1..Len(D)}
NextSt(e) ==
  CASE e.op = "survey" -> [home |-> [d \in 1..N |-> HomeOf(d)], ix |-> [d \in 1..N |-> Expand(Cfg.seg[d], 1)], D |-> <<>>, R |-> {}]
    [] e.op = "states" -> [st EXCEPT !.D = LET R == Rows(e) IN [k \in 1..Len(R) |-> Labelled(R[k], e.kind)]]
    [] e.op = "group" -> [st EXCEPT !.D = Grouped(e)]
    [] e.op = "runs" -> [st EXCEPT !.R = RunsOf(st.D)]
    [] OTHER -> st
\* ---- clauses; s is the new st
Survey(e, s) ==
  [ where_people_are |-> Len(e.home) = N /\ \A d \in 1..N : e.home[d] = [k \in 1..Len(Cfg.seg[d]) |-> <<B2(s.home[d][k])>>] ]
Mask(e) == [ exactly_those_asked_for |-> e.size = N /\ e.rows = Rows(e) ]
States(e) ==
  LET R == Rows(e) IN
  [ one_row_per_diary |-> e.n = Len(R) /\ Len(e.out) = Len(R),
    household_and_day |-> e.hh = [k \in 1..Len(R) |-> A[R[k]][1]] /\ e.day = [k \in 1..Len(R) |-> A[R[k]][3]],
    labels |-> Len(e.out) = Len(R) => \A k \in 1..Len(R) : e.out[k] = [x \in 1..Len(Cfg.seg[R[k]]) |-> <<Label(R[k], x, e.kind)>>],
    asked_alone |-> e.same ]
Ls(e) == 1..Len(e.labels)
Used(D) == UNION {{D[p][x] : x \in 1..T} : p \in 1..Len(D)}
Row(row, X, c(_), unused(_)) ==
  LET tot == M!Sum(X, c) IN Len(row) = Cardinality(X) /\ IF tot = 0 THEN \A b \in X : row[b] = unused(b) ELSE \A b \in X : Share(row[b], c(b), tot)
\* a distribution given by <<position, share>> of what is not zero: that of the values val of the things in Z
Sparse(v, Z, val(_)) ==
  LET c(n) == Cardinality({z \in Z : val(z) = n}) IN
  IF Z = {} THEN v = << <<0, SC>> >>
  ELSE /\ \A k \in 1..Len(v) : c(v[k][1]) > 0 /\ Share(v[k][2], c(v[k][1]), Cardinality(Z))
       /\ \A z \in Z : \E k \in 1..Len(v) : v[k][1] = val(z)
LabelsOk(e, all) == Range(e.labels) = Used(st.D) \cup all /\ Cardinality(Range(e.labels)) = Len(e.labels)
AllOf(kind) == IF kind \in DOMAIN Cfg.all THEN Range(Cfg.all[kind]) \cup {"away"} ELSE {}
Initial(e) == Row(e.initial, Ls(e), LAMBDA a : Cardinality({p \in 1..Len(st.D) : st.D[p][1] = e.labels[a]}), LAMBDA a : 0)
Tpm(e) ==
  [ labels_once |-> LabelsOk(e, AllOf(e.kind)),
    initial_shares |-> Initial(e),
    observed_proportions |-> e.size = T /\ \A k \in 1..Len(e.times) : Len(e.tpm[k]) = Len(e.labels) /\ \A a \in Ls(e) :
        Row(e.tpm[k][a], Ls(e), LAMBDA b : M!Count(st.D, M!Moment(st.D, e.times[k], "last"), e.labels[a], e.labels[b]), LAMBDA b : IF a = b THEN SC ELSE 0) ]
TpmDur(e) ==
  LET D == st.D
      Const(a) == {r \in st.R : r[5] /\ r[4] = a}
      mo(x) == M!Moment(D, x, e.algo)
      ch(x) == {r \in st.R : mo(x) # 0 /\ ~r[5] /\ r[2] = mo(x)}
      cnt(x, a, b) == IF x = 0 /\ a = b THEN Cardinality(Const(a)) ELSE Cardinality({r \in ch(x) : r[4] = b /\ M!Before(D, r[1], r[2]) = a})
      \* a run that is cut by the end of the day has no duration, one that goes on in the morning does
      dur(r) == IF r[5] THEN T ELSE IF r[2] + r[3] >= T /\ D[r[1]][1] # D[r[1]][T] THEN 0 ELSE r[3]
      firstOf(p) == LET C == {r[2] : r \in {y \in st.R : y[1] = p /\ ~y[5]}} \ {0} IN IF C = {} THEN T ELSE CHOOSE x \in C : \A y \in C : x <= y
  IN [ labels_once |-> LabelsOk(e, IF e.kind = "4_States" THEN {} ELSE AllOf(e.kind)),
       initial_shares |-> Initial(e),
       change_proportions |-> e.size = T /\ \A k \in 1..Len(e.times) : Len(e.tpm[k]) = Len(e.labels) /\ \A a \in Ls(e) :
           Row(e.tpm[k][a], Ls(e), LAMBDA b : cnt(e.times[k], e.labels[a], e.labels[b]), LAMBDA b : IF a = b THEN SC ELSE 0),
       duration_proportions |-> \A k \in 1..Len(e.times) : Len(e.dur[k]) = Len(e.labels) /\ \A b \in Ls(e) :
           Sparse(e.dur[k][b], {r \in ch(e.times[k]) : r[4] = e.labels[b]} \cup (IF e.times[k] = 0 THEN Const(e.labels[b]) ELSE {}), dur),
       first_durations |-> \A a \in 1..Len(e.first) :
           Sparse(e.first[a], {p \in 1..Len(D) : D[p][1] = e.labels[a]}, firstOf),
       first_durations_of_all |-> \A p \in 1..Len(D) : \E a \in 1..Len(e.first) : e.labels[a] = D[p][1] ]
SparseTpm(e) ==
  [ labels_once |-> LabelsOk(e, {}),
    kinds_of_absence |-> e.acts = <<"active", "HWH", "HOH">>,
    initial_shares |-> Initial(e),
    observed_proportions |-> \A k \in 1..Len(e.times) : Len(e.tpm[k]) = Len(e.labels) /\ \A a \in Ls(e) :
        LET c(b) == M!Count(st.D, e.times[k] + 1, e.labels[a], e.labels[b])
            tot == M!Sum(Ls(e), c)
        IN tot > 0 => Len(e.tpm[k][a]) = Len(e.labels) /\ \A b \in Ls(e) : Share(e.tpm[k][a][b], c(b), tot) ]
Keys(e) == Range(e.keys)
Probs(e) ==
  LET D == st.D IN
  [ activities_done |-> Keys(e) = Used(D) \cup {"active_occupancy"},
    shares_of_diaries |-> \A k \in 1..Len(e.keys) : Len(e.p[k]) = Len(e.times) /\ \A x \in 1..Len(e.times) :
        Share(e.p[k][x], Cardinality({p \in 1..Len(D) : LET v == D[p][e.times[x] + 1] IN
                 IF e.keys[k] = "active_occupancy" THEN v \notin {"away", "sleeping"} ELSE v = e.keys[k]}), Len(D)) ]
\* how often a person starts an activity in a day; active occupancy: how often it goes to bed or leaves
Starts(e) ==
  LET D == st.D
      n(p, a) == Cardinality({r \in st.R : r[1] = p /\ ~r[5] /\ (IF a = "active_occupancy" THEN r[4] \in {"away", "sleeping"} ELSE r[4] = a)})
  IN [ activities_done |-> Keys(e) = Used(D) \cup {"active_occupancy"},
       shares_of_days |-> \A k \in 1..Len(e.keys) :
           /\ \A p \in 1..Len(D) : n(p, e.keys[k]) < Len(e.p[k])
           /\ \A m \in 1..Len(e.p[k]) : Share(e.p[k][m], Cardinality({p \in 1..Len(D) : n(p, e.keys[k]) = m - 1}), Len(D)) ]
Durations(e) ==
  [ activities_done |-> Keys(e) = Used(st.D),
    shares_of_runs |-> \A k \in 1..Len(e.keys) : Sparse(e.p[k], {r \in st.R : r[4] = e.keys[k]}, LAMBDA r : r[3]) ]
Crest == [ watching_tv |-> "Act_TV", cooking |-> "Act_Cooking", laundry |-> "Act_Laundry", self_washing |-> "Act_WashDress", ironing |-> "Act_Iron",
           cleaning |-> "Act_HouseClean", dishwashing |-> "Act_Dishwashing", electronics |-> "Act_Elec" ]
Profiles(e) ==
  LET R == Rows(e)
      G == Groups(R)
      at(d, x) == Cfg.seg[d][st.ix[d][x + 1]]
      X(g) == Members(R, g)
      hom(g, x) == Cardinality({d \in X(g) : st.home[d][st.ix[d][x + 1]]})
      act(g, x) == Cardinality({d \in X(g) : Awake(d, st.ix[d][x + 1])})
      occ == [g \in G |-> [x \in Range(e.times) |-> Min2(hom(g, x), act(g, x))]]
      does(g, x, a) == \E d \in X(g) : Cfg.tab.crest[at(d, x)[1]] = a \/ Cfg.tab.crest[at(d, x)[2]] = a
  IN [ every_activity |-> Keys(e) = DOMAIN Crest \cup {"level", "active_occupancy"},
       shares_of_households |-> \A k \in 1..Len(e.keys), j \in 1..Len(e.times) : LET row == e.p[k][j] IN
           /\ Len(row) = 6
           /\ \A n \in 0..5 :
                IF e.keys[k] = "level" THEN row[n + 1] = SC
                ELSE IF e.keys[k] = "active_occupancy" THEN row[n + 1] = (IF n = 0 THEN 0 ELSE SC)
                ELSE LET H == {g \in G : occ[g][e.times[j]] = n}
                         Y == {g \in H : does(g, e.times[j], Crest[e.keys[k]])}
                     IN IF n = 0 \/ H = {} THEN row[n + 1] = 0 ELSE Share(row[n + 1], Cardinality(Y), Cardinality(H)) ]
Active(e) ==
  LET R == Range(Rows(e)) IN
  [ active_occupants |-> \A x \in 1..T : e.out[x] = Cardinality({d \in R : LET k == st.ix[d][x] IN st.home[d][k] /\ Awake(d, k)}) ]
Clauses(e, s) ==
  CASE Raised(e) -> {"raised"}
    [] e.op = "survey" -> Failing(Survey(e, s))
    [] e.op = "mask" -> Failing(Mask(e))
    [] e.op = "states" -> Failing(States(e))
    [] e.op = "group" -> {}
    [] e.op = "runs" -> IF \A p \in 1..Len(s.D) : \E r \in s.R : r[1] = p THEN {} ELSE {"no_runs"}
    [] e.op = "tpm" -> Failing(Tpm(e))
    [] e.op = "tpmdur" -> Failing(TpmDur(e))
    [] e.op = "sparse" -> Failing(SparseTpm(e))
    [] e.op = "probs" -> Failing(Probs(e))
    [] e.op = "starts" -> Failing(Starts(e))
    [] e.op = "durations" -> Failing(Durations(e))
    [] e.op = "profiles" -> Failing(Profiles(e))
    [] e.op = "active" -> Failing(Active(e))
    [] OTHER -> {"unknown_event"}
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = [home |-> <<>>, ix |-> <<>>, D |-> <<>>, R |-> {}] /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ st' = NextSt(e)
             /\ bad' = Clauses(e, st')
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
