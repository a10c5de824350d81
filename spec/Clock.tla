------------------------------- MODULE Clock -------------------------------
(* The clock of a time-aware simulator: initialisation from an earlier moment, steps, and the calendar
   callbacks decorating a step.  A moment is <<s, u>>: seconds since the epoch and microseconds.  The exhaustive
   configuration uses a short day; traces use the real one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS DAY,          \* seconds in a day
          FOUR,         \* seconds from midnight to four o'clock
          HOUR          \* seconds in the hour that starts at four o'clock

M == 1000000
Add(a, b)   == LET u == a[2] + b[2] IN <<a[1] + b[1] + (u \div M), u % M>>
Lt(a, b)    == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b)    == a = b \/ Lt(a, b)
DayOf(t)    == t[1] \div DAY
TimeOf(t)   == <<t[1] % DAY, t[2]>>
InFour(t)   == TimeOf(t)[1] >= FOUR /\ TimeOf(t)[1] < FOUR + HOUR

\* The moment an initialisation starts from.
\* kind "none": the start itself; "time": latest occurrence of a time of day not after the start; "dt": a datetime.
InitMoment(kind, arg, start) ==
  CASE kind = "none" -> start
    [] kind = "dt"   -> arg
    [] kind = "time" -> LET today == <<DayOf(start) * DAY + arg[1], arg[2]>>
                        IN IF Lt(start, today) THEN <<today[1] - DAY, today[2]>> ELSE today

Refused(kind, arg, start) == kind = "dt" /\ Lt(start, arg)

\* first moment of the simulated clock: reachable by whole steps, as early as possible but not before InitMoment
FirstOk(first, kind, arg, start, step) ==
  LET m == InitMoment(kind, arg, start) IN Le(m, first) /\ Lt(first, Add(m, step))

\* which callbacks are due for a step from a to b
Due(cb, a, b, refresh) ==
  CASE cb \in {"before_next_day", "after_next_day"}         -> DayOf(a) # DayOf(b)
    [] cb \in {"before_next_day_4am", "after_next_day_4am"} -> InFour(b) /\ ~InFour(a)
    [] cb \in {"before_refresh_time", "after_refresh_time"} -> TimeOf(a) = refresh
IsBefore(cb) == cb \in {"before_next_day", "before_next_day_4am", "before_refresh_time"}

\* what one step with callback cb shows: the callback and the body in order, each with the clock it saw
StepShows(cb, a, b, refresh) ==
  IF ~Due(cb, a, b, refresh) THEN <<<<"body", b>>>>
  ELSE IF IsBefore(cb) THEN << <<"call", a>>, <<"body", b>> >> ELSE << <<"body", b>>, <<"call", b>> >>

----------------------------------------------------------------------------
(* Exhaustive design: all starts, step sizes and initialisation moments of a small calendar. *)
CONSTANTS Starts, Steps, InitTimes, InitDts, Refreshes, MaxRun

VARIABLES cfg, phase, now, first, n, calls
vars == <<cfg, phase, now, first, n, calls>>

Cfgs == { [start |-> <<s, 0>>, step |-> <<d, 0>>, kind |-> k[1], arg |-> <<k[2], 0>>, refresh |-> <<r, 0>>] :
            s \in Starts, d \in Steps, r \in Refreshes,
            k \in ({<<"none", 0>>} \cup ({"time"} \X InitTimes) \cup ({"dt"} \X InitDts)) }

Cbs == {"before_next_day", "before_next_day_4am", "before_refresh_time"}

Init == /\ cfg \in Cfgs
        /\ phase = "new" /\ now = cfg.start /\ first = cfg.start /\ n = 0
        /\ calls = [c \in Cbs |-> 0]

Refuse == /\ phase = "new" /\ Refused(cfg.kind, cfg.arg, cfg.start)
          /\ phase' = "refused" /\ UNCHANGED <<cfg, now, first, n, calls>>

\* the reachable first moments: those from which whole steps lead to the start
Begin == /\ phase = "new" /\ ~Refused(cfg.kind, cfg.arg, cfg.start)
         /\ \E k \in 0..(2 * DAY) :
               LET f == <<cfg.start[1] - k * cfg.step[1], 0>>
               IN /\ FirstOk(f, cfg.kind, cfg.arg, cfg.start, cfg.step)
                  /\ first' = f /\ now' = f
         /\ phase' = "init" /\ UNCHANGED <<cfg, n, calls>>

DoStep == /\ now' = Add(now, cfg.step)
          /\ n' = n + 1
          /\ calls' = [c \in Cbs |-> calls[c] + (IF Due(c, now, now', cfg.refresh) THEN 1 ELSE 0)]
          /\ UNCHANGED <<cfg, first>>

InitStep == phase = "init" /\ now # cfg.start /\ DoStep /\ UNCHANGED phase
Ready    == phase = "init" /\ now = cfg.start /\ phase' = "run" /\ UNCHANGED <<cfg, now, first, n, calls>>
RunStep  == phase = "run" /\ now[1] < cfg.start[1] + MaxRun /\ DoStep /\ UNCHANGED phase

Next == Refuse \/ Begin \/ InitStep \/ Ready \/ RunStep
Spec == Init /\ [][Next]_vars

\* -- the properties
ClockExact == phase \in {"init", "run"} => now[1] = first[1] + n * cfg.step[1]
InitExact  == phase = "run" =>
                LET m == InitMoment(cfg.kind, cfg.arg, cfg.start)[1]
                    k == (cfg.start[1] - first[1]) \div cfg.step[1]
                IN /\ first[1] + k * cfg.step[1] = cfg.start[1]
                   /\ k = (cfg.start[1] - m) \div cfg.step[1]
                   /\ now[1] >= cfg.start[1]
NeverOvershoots == phase = "init" => Le(now, cfg.start)
TimeKindWithinADay == (cfg.kind = "time" /\ phase = "run") => cfg.start[1] - first[1] < DAY
\* exactly once per boundary
Midnights == phase \in {"init", "run"} =>
                calls["before_next_day"] = DayOf(now) - DayOf(first)
Fours     == (phase \in {"init", "run"} /\ cfg.step[1] <= HOUR) =>
                calls["before_next_day_4am"] =
                  ((now[1] - FOUR) \div DAY) - ((first[1] - FOUR) \div DAY)
                  \* a clock that starts inside the four o'clock hour has not entered it
Refresh   == phase \in {"init", "run"} =>
                calls["before_refresh_time"] =
                  Cardinality({i \in 0..(n - 1) : (first[1] + i * cfg.step[1]) % DAY = cfg.refresh[1]})
=============================================================================
