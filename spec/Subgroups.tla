----------------------------- MODULE Subgroups -----------------------------
(* A subgroup is a set of attributes, each with one value.  A value is <<kind, numbers>>: "i" one number, "l" a list.
   Time attributes are put in and taken out again; a household is expanded into its persons.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names, Values, Dates, MaxOps
VARIABLES sg, hist, last
vars == <<sg, hist, last>>

TimeNames == {"weekday", "quarter"}
NamesOf(s) == {a[1] : a \in s}
One(s) == \A a, b \in s : a[1] = b[1] => a = b          \* one value per attribute
Get(s, n) == (CHOOSE a \in s : a[1] = n)[2]
Drop(s, ns) == {a \in s : a[1] \notin ns}
Put(s, n, v) == Drop(s, {n}) \cup {<<n, v>>}
I(n) == <<"i", <<n>>>>

\* the calendar (proleptic Gregorian), days since 0000-03-01
DayNumber(y, m, d) ==
  LET y1 == IF m <= 2 THEN y - 1 ELSE y
      era == y1 \div 400
      yoe == y1 - era * 400
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
  IN era * 146097 + doe
\* 2000-01-03 was a Monday
IsoWeekday(y, m, d) == ((DayNumber(y, m, d) - DayNumber(2000, 1, 3)) % 7) + 1
Quarter(m) == (m - 1) \div 3 + 1
\* flags: set of "weekend", "satsun", "seven", "quarter"
DayFlags == {"weekend", "satsun", "seven"}
RefusedTime(flags) == Cardinality(flags \cap DayFlags) > 1
Weekday(flags, wd) ==
  IF "weekend" \in flags THEN IF wd <= 5 THEN <<"l", <<1, 2, 3, 4, 5>>>> ELSE <<"l", <<6, 7>>>>
  ELSE IF "satsun" \in flags THEN IF wd <= 5 THEN <<"l", <<1, 2, 3, 4, 5>>>> ELSE I(wd)
  ELSE I(wd)
AddTime(s, flags, y, m, d) ==
  LET a == IF flags \cap DayFlags = {} THEN Drop(s, {"weekday"}) ELSE Put(s, "weekday", Weekday(flags, IsoWeekday(y, m, d)))
  IN IF "quarter" \in flags THEN Put(a, "quarter", I(Quarter(m))) ELSE Drop(a, {"quarter"})
RemoveTime(s) == Drop(s, TimeNames)

\* the persons of a household
Has(s, n) == n \in NamesOf(s)
Num(s, n) == Get(s, n)[2][1]
Residents(s) == IF Has(s, "n_residents") THEN Num(s, "n_residents") ELSE IF Num(s, "household_type") = 1 THEN 1 ELSE 2
Persons(s) ==
  LET p == Drop(s, {"n_residents", "household_type"})
      single == IF ~Has(p, "age") /\ Has(p, "hh_mean_age") THEN Put(Drop(p, {"hh_mean_age"}), "age", Get(p, "hh_mean_age")) ELSE p
      type == IF Has(s, "household_type") THEN Num(s, "household_type") ELSE 0
      pos(k) == Put(p, "household_position", I(k))
  IN IF Residents(s) = 1 THEN <<single>>
     ELSE IF type = 2 THEN <<pos(1), pos(2)>>
     ELSE IF type = 3 THEN [k \in 1..Residents(s) |-> IF k = 1 THEN pos(1) ELSE pos(3)]
     ELSE IF type = 4 THEN [k \in 1..Residents(s) |-> IF k <= 2 THEN pos(k) ELSE pos(3)]
     ELSE [k \in 1..Residents(s) |-> p]

Init == sg \in {s \in SUBSET (Names \X Values) : One(s)} /\ hist = <<>> /\ last = "none"
Time(f, d) == sg' = AddTime(sg, f, d[1], d[2], d[3]) /\ last' = "time" /\ hist' = Append(hist, [op |-> "time", f |-> f, d |-> d])
Remove == sg' = RemoveTime(sg) /\ last' = "remove" /\ hist' = Append(hist, [op |-> "remove", f |-> {}, d |-> <<1, 1, 1>>])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E f \in SUBSET {"weekend", "satsun", "seven", "quarter"}, d \in Dates : ~RefusedTime(f) /\ Time(f, d)
           \/ Remove
Spec == Init /\ [][Next]_vars

OneValue == One(sg)
RemoveExact == last = "remove" => NamesOf(sg) \cap TimeNames = {}
\* whatever was put in before, the time attributes only depend on the last date and flags
TimeExact == last = "time" => LET h == hist[Len(hist)] IN
   /\ (Has(sg, "quarter") <=> "quarter" \in h.f)
   /\ (Has(sg, "weekday") <=> h.f \cap DayFlags # {})
Others == [][Drop(sg', TimeNames) = Drop(sg, TimeNames)]_vars
ASSUME /\ IsoWeekday(2014, 1, 1) = 3 /\ IsoWeekday(2020, 2, 29) = 6 /\ IsoWeekday(1999, 12, 31) = 5 /\ IsoWeekday(2100, 3, 1) = 1
=============================================================================
