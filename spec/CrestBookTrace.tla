--------------------------- MODULE CrestBookTrace ---------------------------
(* What the real reader makes of made-up CREST workbooks.  Rows and columns of sheets count from 0.  Weights are per 1000,
   what is read as proportion per million; other numbers are in 1/64, probabilities in 1/1024.                             *)
EXTENDS TraceLib
VARIABLES t, l, bad
X == INSTANCE CrestBook WITH Sheets <- {}, N <- 1, Unit <- 1000, Near <- 100, Most <- 6, sheet <- <<>>, k <- 0, out <- <<>>, verdict <- ""
Abs(x) == IF x < 0 THEN -x ELSE x
\* ---- transitions: e.rows: [line of the sheet |-> weights], the first line is row 10
Same(w, tot, o) == Len(w) = Len(o) /\ \A j \in 1..Len(w) : Abs(o[j] * tot - w[j] * 1000000) <= tot
ProperRow(e, x) ==
  LET i == x[1] % e.ns IN Same(X!Weights(x[2], i + 1), X!Total(x[2]), x[3])
Tpm(e) ==
  LET isbad == \E x \in Range(e.rows) : X!NoDistribution(x[2])
      S == X!StartLines(e.n)
  IN IF isbad THEN [ refused |-> e.refused ]
     ELSE IF e.refused THEN [ read |-> FALSE ]
     ELSE [ shape |-> e.ns = (e.n + 1) * (e.n + 1) /\ e.shape = <<144, e.ns, e.ns>>,
            weights_of_the_line |-> \A x \in Range(e.rows) : x[3] # <<>> => ProperRow(e, x),
            states |-> e.labels = [m \in 1..Len(S) |-> e.start[S[m] + 1][1]],
            starting_states |-> e.pdf = [m \in 1..Len(S) |-> e.start[S[m] + 1][1 + e.n]] ]
\* ---- who can ask: households of one to six residents, on week days or on week ends
Asked(e) == [ refused |-> e.refused = ~(e.n \in 1..6 /\ e.weekday \in {<<1, 2, 3, 4, 5>>, <<6, 7>>}) ]
\* ---- activities: six for every number of active occupants from 0 to 5
ActOf == [ Act_TV |-> "watching_tv", Act_Cooking |-> "cooking", Act_Laundry |-> "laundry", Act_WashDress |-> "self_washing",
           Act_Iron |-> "ironing", Act_HouseClean |-> "cleaning" ]
First(day) == IF day = "d" THEN 29 ELSE 65
Activities(e) ==
  LET profile(a) == [x \in 1..Len(e.times) |-> [occ \in 1..6 |-> e.grid[First(e.day) - 29 + (occ - 1) * 6 + a][x]]]
      always == [x \in 1..Len(e.times) |-> [occ \in 1..6 |-> 1024]]
      someone == [x \in 1..Len(e.times) |-> [occ \in 1..6 |-> IF occ = 1 THEN 0 ELSE 1024]]
  IN [ activities |-> DOMAIN e.out = {ActOf[e.labels[a]] : a \in 1..6} \cup {"level", "active_occupancy"},
       profiles |-> e.ntimes = 144 /\ \A a \in 1..6 : e.out[ActOf[e.labels[a]]] = profile(a),
       level |-> e.out["level"] = always /\ e.out["active_occupancy"] = someone ]
\* ---- appliances: e.rows, the electric ones and then the basin, the sink, the shower and the bath
TypeOf == [ CHEST_FREEZER |-> "chest_freezer", FRIDGE_FREEZER |-> "fridge_freezer", FRIDGE |-> "fridge", UPRIGHT_FREEZER |-> "upright_freezer",
            ANSWER_MACHINE |-> "answermachine_phone", CD_PLAYER |-> "cd_speaker", CLOCK |-> "clock", PHONE |-> "fixed_phone", HIFI |-> "hifi_speaker",
            IRON |-> "iron", VACUUM |-> "vacuum_cleaner", FAX |-> "fax_printer", PC |-> "fixed_computer", PRINTER |-> "printer", TV1 |-> "tv",
            TV2 |-> "tv", TV3 |-> "tv", VCR_DVD |-> "dvd_console", RECEIVER |-> "dual_box", HOB |-> "hob", OVEN |-> "oven",
            MICROWAVE |-> "microwave", KETTLE |-> "kettle", SMALL_COOKING |-> "toaster", DISH_WASHER |-> "dishwasher",
            TUMBLE_DRYER |-> "tumble_dryer", WASHING_MACHINE |-> "washingmachine", WASHER_DRYER |-> "washer_dryer", DESWH |-> "des_water_heater",
            E_INST |-> "einst_water_heater", ELEC_SHOWER |-> "electric_shower", BASIN |-> "basin", SINK |-> "sink", SHOWER |-> "shower", BATH |-> "bath" ]
UseOf == [ LEVEL |-> "level", ACTIVE_OCC |-> "active_occupancy", ACT_IRON |-> "ironing", ACT_HOUSECLEAN |-> "cleaning", ACT_TV |-> "watching_tv",
           ACT_COOKING |-> "cooking", ACT_LAUNDRY |-> "laundry", ACT_WASHDRESS |-> "self_washing" ]
Liters == [ BASIN |-> 23, SINK |-> 23, SHOWER |-> 257, BATH |-> 733 ]        \* in decilitres
Appliances(e) ==
  LET n == Len(e.rows)
      R == e.rows
      water(k) == R[k].name \in DOMAIN Liters
      each(F(_)) == [k \in 1..n |-> F(k)]
  IN [ number |-> e.out.number = n /\ n = 35,
       names |-> e.out.name = each(LAMBDA k : R[k].name),
       types |-> e.out.type = each(LAMBDA k : TypeOf[R[k].name]),
       owned |-> e.out.equipped_prob = each(LAMBDA k : R[k].prob),
       activities |-> e.out.related_activity = each(LAMBDA k : UseOf[R[k].act]),
       switched_off_when_inactive |-> e.out.inactive_switch_off =
            each(LAMBDA k : IF R[k].act \in {"ACT_WASHDRESS", "LEVEL"} \/ R[k].name = "DISH_WASHER" THEN 0 ELSE 1),
       durations |-> e.out.mean_duration = each(LAMBDA k : R[k].dur) /\ e.out.after_cycle_delay = each(LAMBDA k : R[k].delay),
       switch_on |-> e.out.switch_on_prob_crest = each(LAMBDA k : R[k].on),
       power |-> e.out.mean_elec_consumption = each(LAMBDA k : IF water(k) THEN 0 ELSE R[k].use)
                 /\ e.out.standby_consumption = each(LAMBDA k : R[k].standby),
       power_factor |-> e.out.mean_power_factor = each(LAMBDA k : IF R[k].pf = -1 THEN 64 ELSE R[k].pf),
       water |-> /\ e.out.mean_water_consumption = each(LAMBDA k : IF water(k) THEN R[k].use ELSE 0)
                 /\ e.out.uses_water = each(LAMBDA k : IF water(k) THEN 1 ELSE 0)
                 /\ e.out.poisson = each(LAMBDA k : IF water(k) THEN Liters[R[k].name] ELSE 0) ]
\* the first, the second, ... appliance of a type
Ownership(e) ==
  LET n == Len(e.rows)
      ty(k) == TypeOf[e.rows[k].name]
      rank(k) == Cardinality({j \in 1..k : ty(j) = ty(k)})
  IN [ every_appliance |-> {<<o[1], o[2], o[3]>> : o \in Range(e.out)} = {<<ty(k), rank(k), e.rows[k].prob>> : k \in 1..n} /\ Len(e.out) = n ]
\* ---- clearness: the first state goes to the second one
ClearRow(x) == IF x[1] = 0 THEN [x[2] EXCEPT ![2] = 1000] ELSE x[2]
Clearness(e) ==
  [ states |-> e.labels = [k \in 1..101 |-> IF e.header[k] = -1 THEN 64 ELSE e.header[k]],
    every_minute |-> e.step = 60,
    weights_of_the_line |-> e.shape = <<101, 101>> /\ \A x \in Range(e.rows) : Same(ClearRow(x), SumSeq(ClearRow(x)), x[3]) ]
\* ---- households
Population(e) ==
  [ residents |-> e.n = [k \in 1..5 |-> e.rows[k][1]],
    shares |-> e.share = [k \in 1..5 |-> e.rows[k][2]],
    households |-> e.total = 25000000 ]
\* ---- light: cells by <<row, column>>
At(e, r, c) == (CHOOSE x \in Range(e.cells) : x[1] = r /\ x[2] = c)[3]
Down(e, c, a, b) == [k \in 1..(b - a + 1) |-> At(e, a + k - 1, c)]
Lights(e) ==
  [ threshold |-> e.mean = At(e, 3, 5) /\ e.std = At(e, 3, 6),
    calibration |-> e.scalar = At(e, 23, IF e.version = "2.2" THEN 5 ELSE 6),
    effective_occupancy |-> e.occ = Down(e, 4, 36, 41),
    durations |-> e.low = Down(e, 2, 54, 62) /\ e.high = Down(e, 3, 54, 62) /\ e.cdf = Down(e, 4, 54, 62) ]
\* 100 houses, a bulb being a cell of more than nothing (-1: an empty cell)
Bulbs(e) ==
  LET here == {<<h, b>> \in (1..100) \X (1..38) : e.grid[h][b] > 0}
      inhouse(h) == Cardinality({b \in 1..38 : e.grid[h][b] > 0})
      watts == {e.grid[x[1]][x[2]] : x \in here}
      share(w) == Cardinality({x \in here : e.grid[x[1]][x[2]] = w})
      all == Cardinality(here)
      s1 == SumSeq([h \in 1..100 |-> inhouse(h)])
      s2 == SumSeq([h \in 1..100 |-> inhouse(h) * inhouse(h)])
  IN [ houses |-> e.out = e.grid,
       mean_number |-> e.mean = s1 * 10,                                                         \* per 1000
       spread |-> LET v == (100 * s2 - s1 * s1) IN Abs(e.var - v) <= 1,                          \* 10000 times the variance
       watts |-> Range(e.watts) = watts /\ Len(e.watts) = Cardinality(watts),
       shares |-> \A k \in 1..Len(e.watts) : e.watts[k] \in watts /\ Abs(e.share[k] * all - share(e.watts[k]) * 100000) <= all ]
\* ---- heating systems, buildings: one line each, by name of the quantity; texts are sequences of letters
Heating(e) ==
  LET R == e.rows
      n == IF e.version = "2.2" THEN 3 ELSE 5
      each(F(_)) == [k \in 1..n |-> F(k)]
  IN [ systems |-> e.out.name = each(LAMBDA k : R[k].name) /\ e.out.equipped_prob = each(LAMBDA k : R[k].prob),
       combi |-> e.out.is_combi = each(LAMBDA k : IF R[k].kind = 2 THEN 1 ELSE 0),
       fuel |-> e.out.fuel_type = each(LAMBDA k : SelectSeq(R[k].fuel, LAMBDA y : y # " "))
                /\ e.out.fuel_flow_rate = each(LAMBDA k : R[k].flow) /\ e.out.flow_rate_to_W = each(LAMBDA k : R[k].calorific),
       heat |-> e.out.heat_output_sh = each(LAMBDA k : R[k].heat) /\ e.out.heat_output_dhw = each(LAMBDA k : R[k].heat),
       power |-> e.out.standby_power = each(LAMBDA k : R[k].standby) /\ e.out.pump_power = each(LAMBDA k : R[k].pump),
       cylinder |-> e.out.cyl_volume = each(LAMBDA k : R[k].volume) /\ e.out.cyl_loss = each(LAMBDA k : R[k].loss) ]
Buildings(e) == [ every_quantity |-> \A q \in DOMAIN e.out : e.out[q] = [k \in 1..Len(e.rows) |-> e.rows[k][q]],
                  quantities |-> DOMAIN e.out = DOMAIN e.rows[1] ]
Upto(x) == [k \in 1..Len(x) |-> SumSeq(SubSeq(x, 1, k))]
Thermostat(e) ==
  [ home |-> e.home = [k \in 1..15 |-> e.homes[k][1]] /\ e.homecdf = Upto([k \in 1..15 |-> e.homes[k][2]]),
    water |-> e.water = [k \in 1..12 |-> e.waters[k][1]] /\ e.watercdf = Upto([k \in 1..12 |-> e.waters[k][2]]),
    bands |-> e.emitter = 50 /\ e.band = [space_heating |-> 2, space_cooling |-> 2, hot_water |-> 5, emitter |-> 5] ]
\* ---- the washing machine, minute after minute: <<until, watts>>
Wash == <<<<8, 73>>, <<29, 2056>>, <<92, 73>>, <<94, 250>>, <<105, 73>>, <<107, 250>>, <<118, 73>>, <<120, 250>>, <<131, 73>>, <<133, 250>>,
          <<138, 568>>, <<198, 2500>>>>
WattsAt(m) == Wash[CHOOSE k \in 1..Len(Wash) : m <= Wash[k][1] /\ \A j \in 1..(k - 1) : m > Wash[j][1]][2]
Cycles(e) == [ washing |-> e.washer = [m \in 1..138 |-> WattsAt(m - 1)], drying |-> e.dryer = [m \in 1..198 |-> WattsAt(m - 1)] ]
\* ---- where the workbook is made for
Place(e) ==
  [ place |-> e.out = IF e.version = "2.2" THEN [country |-> "england", latitude |-> 528, longitude |-> -12, meridian |-> 0, dst |-> 1]
              ELSE [country |-> "india", latitude |-> 131, longitude |-> 803, meridian |-> 825, dst |-> 0] ]
Clauses(e) ==
  CASE Raised(e) -> {"raised"}
    [] e.op = "tpm" -> Failing(Tpm(e))
    [] e.op = "asked" -> Failing(Asked(e))
    [] e.op = "activities" -> Failing(Activities(e))
    [] e.op = "appliances" -> Failing(Appliances(e))
    [] e.op = "ownership" -> Failing(Ownership(e))
    [] e.op = "clearness" -> Failing(Clearness(e))
    [] e.op = "population" -> Failing(Population(e))
    [] e.op = "lights" -> Failing(Lights(e))
    [] e.op = "bulbs" -> Failing(Bulbs(e))
    [] e.op = "heating" -> Failing(Heating(e))
    [] e.op = "buildings" -> Failing(Buildings(e))
    [] e.op = "thermostat" -> Failing(Thermostat(e))
    [] e.op = "cycles" -> Failing(Cycles(e))
    [] e.op = "place" -> Failing(Place(e))
    [] OTHER -> {"unknown_event"}
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ bad' = Clauses(Traces[t].ev[l + 1])
        /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, bad>>
=============================================================================
