----------------------------- MODULE MultiTrace -----------------------------
(* Judges recorded runs of real multi simulators. *)
EXTENDS TraceLib
VARIABLES t, l, st, bad
M == INSTANCE Multi WITH MaxParts <- 0, MaxSize <- 0, MaxSteps <- 0, Groups <- {}, NKw <- 0,
                         sizes <- 0, groups <- 0, pos <- 0, kw <- 0, counts <- 0, whole <- 0, steps <- 0, npos <- 0
Cfg == Traces[t].cfg
N == M!Total(Cfg.sizes)
Start == [parts |-> [p \in 1..Len(Cfg.sizes) |-> M!Zeros(Cfg.sizes[p])], n |-> 0]
Whole(s) == M!Flat(s.parts)

StepClauses(e) ==
  LET nx == M!StepParts(st.parts, Cfg.sizes, e.a, e.b, e.c)
  IN [ counter |-> e.count = st.n + 1,
       parts_stepped_once |-> \A p \in 1..Len(e.counts) : e.counts[p] = st.n + 1,
       own_slice |-> e.parts = nx,
       arguments_untouched |-> e.same ]
GetClauses(e) ==
  LET w == Whole(st)
      want == CASE e.g = "get_acc" -> w [] e.g = "get_double" -> [i \in 1..Len(w) |-> 2 * w[i]]
                [] e.g = "get_flag" -> [i \in 1..Len(w) |-> w[i] % 2]
  IN IF e.i < 0 THEN [ concatenated |-> e.v = want ] ELSE [ household_entry |-> e.v = <<want[e.i + 1]>> ]
\* the parts' current results, whatever moved the parts (a part may also be stepped on its own)
MaskClauses(e) ==
  LET m == M!Mask(Cfg.sizes, [p \in 1..Len(Cfg.groups) |-> Range(Cfg.groups[p])], Range(e.want))
  IN [ mask |-> e.v = [i \in 1..Len(m) |-> IF m[i] THEN 1 ELSE 0] ]
MakeClauses(e) == [ households |-> e.n = N, residents |-> e.res = e.wantres ]

Clauses(e) ==
  CASE Raised(e)     -> {"raised"}
    [] e.op = "make" -> Failing(MakeClauses(e))
    [] e.op = "step" -> Failing(StepClauses(e))
    [] e.op = "get"  -> Failing(GetClauses(e))
    [] e.op = "mask" -> Failing(MaskClauses(e))
    [] OTHER         -> {"unknown_event"}
NextSt(e) ==
  IF e.op = "step"
    THEN [parts |-> M!StepParts(st.parts, Cfg.sizes, e.a, e.b, e.c), n |-> st.n + 1]
    ELSE st
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = Start /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Traces[t].ev[l + 1] IN
             /\ bad' = Clauses(e)
             /\ st' = NextSt(e)
             /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, st, bad>>
=============================================================================
