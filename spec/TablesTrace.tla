---------------------------- MODULE TablesTrace ----------------------------
(* What the real loaders make of made-up recordings (loads in 1/32 W), ownership tables (per 1000), sheets, climate files,
   and where the German data set takes its data from.                                                                   *)
EXTENDS TraceLib
VARIABLES t, l, bad
X == INSTANCE Tables WITH Recs <- {}, Sizes <- {}, D <- 32, rec <- <<>>, n <- 0, i <- 0, acc <- 0, prof <- <<>>
Cfg == Traces[t].cfg
\* ---- recordings
Kind == [ Alarmclock |-> "alarm_clock", Amplifier |-> "speaker", BeanToCupCoffeemaker |-> "beans_coffemachine", CdPlayer |-> "cd_speaker",
          Coffeemaker |-> "coffemachine", Cookingstove |-> "electric_hob", DigitalTvReceiver |-> "tv_box", Dishwasher |-> "dishwasher",
          DvdPlayer |-> "dvd_console", EthernetSwitch |-> "internet_box", Freezer |-> "freezer", Iron |-> "iron", Lamp |-> "lamp",
          LaundryDryer |-> "dryer", MicrowaveOven |-> "microwave", Playstation3 |-> "gaming_console", Printer |-> "printer",
          Projector |-> "projector", Refrigerator |-> "fridge", Router |-> "wifi_box", Subwoofer |-> "hifi_speaker", Toaster |-> "toaster",
          VacuumCleaner |-> "vacuum_cleaner", VideoProjector |-> "projector", Washingmachine |-> "washingmachine", WaterBoiler |-> "waterboiler",
          WaterKettle |-> "kettle", XmasLights |-> "christmas_lamp" ]
       @@ ("Charger-Smartphone" :> "smart_phone" @@ "Monitor-CRT" :> "crt_monitor" @@ "Monitor-TFT" :> "tft_monitor" @@ "PC-Desktop" :> "fixed_computer"
           @@ "PC-Laptop" :> "laptop_computer" @@ "TV-CRT" :> "crt_tv" @@ "TV-LCD" :> "lcd_tv")
Selected == { "dev_995BAC_2012.06.11.csv", "dev_B7E6F4_2012.02.03.csv", "dev_B7E6FA_2012.01.18.csv", "dev_B81D04_2012.05.23.csv",
  "dev_B82F81_2011.08.15.csv", "dev_11F01E_2011.12.10.csv", "dev_7297E3_2012.01.16.csv", "dev_B8121D_2012.02.01.csv", "dev_D31FFD_2012.06.11.csv",
  "dev_D3230E_2011.12.18.csv", "dev_D338C9_2012.05.16.csv", "Washingmachine_2011.11.30.csv", "dev_B7E43D_2012.01.24.csv", "dev_D337C2_2011.12.26.csv",
  "dev_995FCC_2012.01.21.csv", "dev_D32309_2011.12.25.csv", "dev_D32309_2012.01.08.csv", "Microwave_2011.12.28.csv", "Microwave_2011.12.30.csv",
  "Microwave_2012.01.02.csv" }
Known(e) == {k \in 1..Len(e.files) : e.files[k][1] \in DOMAIN Kind}
Energy(e, k) == X!Profile(e.files[k][3], e.size)
Wanted(e) == IF e.kind = "full" THEN Known(e)
             ELSE {k \in Known(e) : e.files[k][2] \in Selected /\ X!OnSteps(Energy(e, k), e.size) # {}}
Out(e, k) == {o \in Range(e.out) : o[1] = Kind[e.files[k][1]] /\ o[2] = e.files[k][2]}
Profiles(e) ==
  LET W == Wanted(e) IN
  [ every_recording_under_its_type |-> {<<o[1], o[2]>> : o \in Range(e.out)} = {<<Kind[e.files[k][1]], e.files[k][2]>> : k \in W},
    energy_of_every_step |-> \A k \in W : \A o \in Out(e, k) :
        o[3] = (IF e.kind = "full" THEN Energy(e, k) ELSE X!OnPart(Energy(e, k), e.size)) ]
\* ---- ownership: rows <<type, numbers, shares>>, each by column, -1: no data
Bounds == <<900, 1300, 1500, 2000, 2600, 3600, 5000>>
Column(s) ==
  CASE s.htype = 1 -> (CASE s.gender = 0 -> "alone" [] s.gender = 1 -> "man" [] s.gender = 2 -> "woman" [] OTHER -> "refused")
    [] s.htype = 2 -> "couple"
    [] s.htype = 3 /\ s.nres = 2 -> "lone1"
    [] s.htype = 3 /\ s.nres \in {3, 4} -> "lone2"
    [] s.htype = 4 /\ s.nres = 3 -> "pair1"
    [] s.htype = 4 /\ s.nres = 4 -> "pair2"
    [] s.htype = 4 /\ s.nres = 5 -> "pair3"
    [] s.nres # 0 -> IF s.nres <= 5 THEN <<"n1", "n2", "n3", "n4", "n5">>[s.nres] ELSE "refused"
    [] s.revenue # 0 -> <<"r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8">>[1 + Cardinality({k \in 1..7 : s.revenue >= Bounds[k]})]
    [] s.year = 2008 -> "y2008"
    [] s.year = 2013 -> "y2013"
    [] s.year = 2018 -> "y2018"
    [] OTHER -> "refused"
Entries(p, m) == IF p = -1 THEN <<0>> ELSE IF m = -1 THEN <<p>> ELSE X!Split(p, m)
\* the last row of a type counts; entries of 0 say as little as no entries, but for the first
Owned(rows, c) ==
  UNION {LET r == CHOOSE k \in 1..Len(rows) : rows[k].type = ty /\ \A j \in 1..Len(rows) : rows[j].type = ty => j <= k
             x == Entries(rows[r].share[c], rows[r].number[c])
         IN {<<ty, k, x[k]>> : k \in {j \in 1..Len(x) : j = 1 \/ x[j] # 0}} : ty \in {rows[k].type : k \in 1..Len(rows)}}
Own(e) ==
  LET c == Column(e.sg) IN
  IF c = "refused" THEN [ refused |-> e.refused ]
  ELSE [ column_of_the_subgroup |-> ~e.refused /\ {o \in Range(e.out) : o[2] = 1 \/ o[3] # 0} = Owned(Cfg.rows, c) ]
\* ---- sheets: a header and rows of cells; texts are sequences of letters
Blank(x) == SelectSeq(x, LAMBDA y : y # " ")
Flags == {"inactive_switch_off", "uses_water", "probabilistic"}
RECURSIVE Glue(_)
Glue(x) == IF x = <<>> THEN "" ELSE Head(x) \o Glue(Tail(x))
\* a cell: its kind (text, number, flag, nothing), value and text
Value(name, flags, c) == IF c.k = "s" THEN [c EXCEPT !.s = Blank(c.s)]
                         ELSE IF name \in flags THEN [c EXCEPT !.k = "b", !.v = IF c.v # 0 THEN 64 ELSE 0] ELSE c
Table(e) ==
  LET named == {k \in 1..Len(e.header) : e.header[k] # <<>>}
      flags == Flags \cap Range(e.flags)
      col(k) == LET nm == Glue(Blank(e.header[k])) IN <<nm, [r \in 1..Len(e.rows) |-> Value(nm, flags, e.rows[r][k])]>>
  IN [ columns |-> {e.out[k][1] : k \in 1..Len(e.out)} = {col(k)[1] : k \in named},
       cells |-> {<<e.out[k][1], e.out[k][2]>> : k \in 1..Len(e.out)} = {col(k) : k \in named},
       number_of_rows |-> e.number = Len(e.rows) ]
Targets(e) == [ target_of_every_type |-> {<<o[1], o[2]>> : o \in Range(e.out)} = {<<r[1], r[2]>> : r \in Range(e.rows)} ]
\* ---- the sheet of lights: cells by <<row, column>>, from 0
At(e, r, c) == (CHOOSE x \in Range(e.cells) : x[1] = r /\ x[2] = c)[3]
Down(e, c, a, b) == [k \in 1..(b - a + 1) |-> At(e, a + k - 1, c)]
Lights(e) ==
  [ threshold |-> e.mean = At(e, 3, 5) /\ e.std = At(e, 3, 6),
    calibration |-> e.scalar = At(e, 23, 5),
    effective_occupancy |-> e.occ = Down(e, 4, 36, 41),
    durations |-> e.low = Down(e, 2, 54, 62) /\ e.high = Down(e, 3, 54, 62) /\ e.cdf = Down(e, 4, 54, 62),
    installed |-> e.stats = <<At(e, 69, 3), At(e, 70, 3)>>,
    bulbs |-> e.watts = Down(e, 4, 76, 75 + e.nbulbs) /\ e.share = Down(e, 3, 76, 75 + e.nbulbs) ]
\* ---- climate: rows <<hour, values by column>>
Clim(e) ==
  LET n == Len(e.rows)
      c(k) == [r \in 1..n |-> e.rows[r][k]]
      sum(j, k) == [r \in 1..n |-> e.rows[r][j] + e.rows[r][k]]
  IN [ moments |-> e.out.datetime = c(1),
       quantities |-> \A k \in 1..Len(e.names) : e.out[e.names[k]] = c(k + 1),
       irradiance |-> LET m == Len(e.names) + 1 IN e.out.irradiance = sum(m + 1, m + 2) ]
\* ---- the German data set: answers are numbered by what they are
SourceOf == [ load_tpm |-> "gtou", load_tpm_with_duration |-> "gtou", load_sparse_tpm |-> "gtou", load_activity_probabilities |-> "gtou",
              load_daily_activity_starts |-> "gtou", load_activity_probability_profiles |-> "gtou", load_appliance_ownership_dict |-> "destatis", load_population_subgroups |-> "destatis",
              load_historical_climate_data |-> "climate", load_real_profiles_dict |-> "tracebase", load_appliance_dict |-> "sheet",
              load_bulbs |-> "sheet", load_crest_lighting |-> "sheet", load_installed_bulbs_stats |-> "sheet", load_buildings_dict |-> "sheet",
              load_heating_system_dict |-> "sheet", load_yearly_target_switchons |-> "sheet" ]
German(e) == [ from_its_source |-> \E x \in Range(e.src) : x[1] = SourceOf[e.what] /\ x[2] = e.got ]
\* fluorescent lights that a person uses between 30 and 60 W/m2, in one version only
Fisher(e) == [ fisher_lighting |-> IF e.version = "v0.1" THEN e.out = <<30, 60, 12>> ELSE e.refused ]
\* temperatures that households choose, the share (percent) of those that choose at most each, and the bands of the thermostats
Upto(x) == [k \in 1..Len(x) |-> SumSeq(SubSeq(x, 1, k))]
Thermostat(e) ==
  [ home |-> e.home = [k \in 1..15 |-> 12 + k] /\ e.homecdf = Upto(<<1, 2, 1, 3, 4, 8, 16, 14, 16, 16, 9, 5, 3, 1, 1>>),
    water |-> e.water = <<42, 43, 45, 47, 49, 51, 53, 55, 57, 59, 61, 62>> /\ e.watercdf = Upto(<<4, 4, 11, 8, 13, 9, 14, 11, 8, 10, 4, 4>>),
    bands |-> e.emitter = 50 /\ e.band = [space_heating |-> 1, hot_water |-> 5, emitter |-> 5] ]
\* ---- population: <<residents, type, thousands (or per mille)>>
Pop == [ resident_number_2013 |-> <<<<1, 0, 4054>>, <<2, 0, 3443>>, <<3, 0, 1251>>, <<4, 0, 921>>, <<5, 0, 331>>>>,
         resident_number_2019 |-> <<<<1, 0, 423>>, <<2, 0, 332>>, <<3, 0, 119>>, <<4, 0, 91>>, <<5, 0, 35>>>>,
         household_types_2019 |-> <<<<1, 1, 17067>>, <<2, 2, 11850>>, <<2, 3, 1007>>, <<3, 3, 408>>, <<4, 3, 109>>, <<3, 4, 2553>>, <<4, 4, 2370>>, <<5, 4, 801>>>> ]
PopOf(n) == IF n \in {"resident_number", "crest"} THEN "resident_number_2019" ELSE IF n = "household_types" THEN "household_types_2019" ELSE n
Population(e) ==
  LET P == Pop[PopOf(e.what)]
      all == SumSeq([k \in 1..Len(P) |-> P[k][3]])
  IN [ subgroups |-> Len(e.out) = Len(P) /\ \A k \in 1..Len(P) : e.out[k][1] = P[k][1] /\ e.out[k][2] = P[k][2],
       shares |-> Len(e.out) = Len(P) /\ \A k \in 1..Len(P) : LET d == e.out[k][3] * all - P[k][3] * 10000 IN d <= all /\ -d <= all,
       households |-> e.total = (IF PopOf(e.what) = "resident_number_2013" THEN 39933 ELSE 41506) ]
\* ---- synthetic loads <<household type, phase (0: the sum), kW by minute>>: those of heat as they are, the sums of electricity in W
Homes == << "One full-time working person", "One pensioneer", "Two full-time working persons", "Two pensioneers",
            "One full-time and one part-time working person", "Two full-time working persons, one child",
            "One full-time and one part-time working person, one child", "Two full-time working persons, two children",
            "One full-time and one part-time working person, two children", "Two full-time working persons, three children",
            "One full-time and one part-time working person, three children" >>
Synthetic(e) ==
  LET sel == SelectSeq(e.rows, LAMBDA r : e.what = "thermal" \/ r[2] = 0)
      w == IF e.watts THEN 1000 ELSE 1
  IN [ loads |-> e.out = [k \in 1..Len(sel) |-> [m \in 1..Len(sel[k][3]) |-> w * sel[k][3][m]]],
       households_of_loads |-> e.labels = IF e.labelled THEN [k \in 1..Len(sel) |-> sel[k][1]] ELSE <<>>,
       names_of_households |-> e.said = [k \in 1..Len(e.labels) |-> Homes[e.labels[k]]] ]
Clauses(e) ==
  CASE Raised(e) -> {"raised"}
    [] e.op = "profiles" -> Failing(Profiles(e))
    [] e.op = "own" -> Failing(Own(e))
    [] e.op = "table" -> Failing(Table(e))
    [] e.op = "targets" -> Failing(Targets(e))
    [] e.op = "lights" -> Failing(Lights(e))
    [] e.op = "climate" -> Failing(Clim(e))
    [] e.op = "german" -> Failing(German(e))
    [] e.op = "fisher" -> Failing(Fisher(e))
    [] e.op = "thermostat" -> Failing(Thermostat(e))
    [] e.op = "population" -> Failing(Population(e))
    [] e.op = "synthetic" -> Failing(Synthetic(e))
    [] OTHER -> {"unknown_event"}
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = {}
Next == /\ l < Len(Traces[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ bad' = Clauses(Traces[t].ev[l + 1])
        /\ (bad' # {} => PrintT(<<"BAD", t, l + 1, bad'>>))
Spec == Init /\ [][Next]_<<t, l, bad>>
=============================================================================
