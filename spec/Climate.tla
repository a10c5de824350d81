------------------------------- MODULE Climate -------------------------------
(* Recorded and generated climate.  Times are integers (the driver's unit is half a minute, UTC); rt: times of the
   records, increasing.                                                                                             *)
EXTENDS Integers, Sequences, FiniteSets
\* the record in force at time T (0: none yet)
InForce(rt, T) == Cardinality({i \in 1..Len(rt) : rt[i] <= T})
\* what a request for the data from T on gives: the first record returned, 0 if the request is refused
WindowFrom(rt, T) == IF T > rt[Len(rt)] THEN 0 ELSE IF InForce(rt, T) = 0 THEN 1 ELSE InForce(rt, T)
\* linear interpolation at T between the records around it, times 1000 (rounding: within 1 of the exact value)
InterpOk(rt, v, T, got) ==
  LET i == InForce(rt, T) IN
  IF i = Len(rt) THEN got = 1000 * v[i]
  ELSE LET d == rt[i + 1] - rt[i]
           x == 1000 * (v[i] * (rt[i + 1] - T) + v[i + 1] * (T - rt[i]))      \* times d
       IN got * d - x \in -d..d
\* ---- the machines
\* the simulator that goes from record to record: pos = record shown, now = time of the simulation
RealStart(rt, T) == [pos |-> InForce(rt, T), now |-> T]
RealStep(s, step) == [pos |-> s.pos + 1, now |-> s.now + step]
\* the generated climate: values of a whole day are made when the day begins and handed out one by one.
\* day = days made so far, left = values of this day not handed out yet, shown = <<day, index>> of the value shown
GenStart(D) == [day |-> 1, next |-> 1, shown |-> <<1, 0>>, now |-> 0]
GenStep(s, D) == IF (s.now + 1) % D = 0
                 THEN [day |-> s.day + 1, next |-> 1, shown |-> <<s.day + 1, 0>>, now |-> s.now + 1]
                 ELSE [day |-> s.day, next |-> s.next + 1, shown |-> <<s.day, s.next>>, now |-> s.now + 1]
=============================================================================
