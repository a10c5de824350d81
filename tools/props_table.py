B = "demod/simulators/base_simulators.py"
ACT = "demod/simulators/activity_simulators.py"
APP = "demod/simulators/appliance_simulators.py"
HEAT = "demod/simulators/heating_simulators.py"
SPS = "demod/simulators/sparse_simulators.py"
NA = []

p("C01", "Simulation clock and initialisation reach the requested start exactly",
  "A time-aware simulator that is initialised from an earlier time of day or datetime runs exactly the whole steps that fit between that moment and the requested start, so that right after initialisation its current time equals the requested start (same time zone) and its step counter equals the number of steps run; every later step advances the clock by exactly one step size and the counter by one. A time of day means its latest occurrence not after the start; an initialisation datetime after the start is refused, and without an initialisation time no step is run.",
  ["inputs", "configurations", "histories"], "every start datetime (month, year and leap-day ends, seconds, time zones), every step size, every initialisation time, every number of steps",
  "Tests use a handful of starts with minute steps; the boundary cases (midnight wrap, non dividing step sizes, year ends) form a product space.",
  [B], [("TimeAwareSimulator.initialize_starting_state", B), ("Simulator.initialize_starting_state / step", B)],
  [("current_time", "simulated datetime", B), ("current_time_step", "steps since initialisation began", B)], ["current_time", "current_time_step"])

p("C02", "Calendar callbacks fire exactly once for every boundary crossed",
  "For step sizes up to an hour, a step decorated with a next-day (or next-day-4am) callback calls it exactly when that step moves the clock into a new calendar day (or into the 4 o'clock hour), whatever the month, year or leap day, and the refresh-time callback exactly when a step starts at the data's refresh time; the 'before' variants run before the step body with the old time, the 'after' variants after it with the new time. No boundary is missed and none fires twice.",
  ["histories", "configurations"], "every start datetime, step size up to one hour and run length",
  "Tests cross one or two midnights in the middle of a month.",
  [B], [("Callbacks", B), ("before_next_day_callback and the other module level decorators", B)], [], ["calls of on_before_*/on_after_* with current_time"])

p("C03", "Logged series line up one to one with the simulated steps",
  "After a simulator was initialised and stepped N times, reading a logged attribute gives exactly N records, and record k is the value that attribute had at the start of step k (k = 0 is the state right after initialisation), summed over households exactly when the logger was asked to aggregate; dictionaries are logged per key, times are never aggregated, and initialisation steps leave no record. Each simulator records into a logger of its own, so the logger passed in and other simulators are unaffected; merging two loggers keeps both sets of series and refuses loggers of different length, and clearing leaves no old record.",
  ["histories", "configurations"], "every sequence of steps, logger configurations (attributes, aggregation, dict valued, several simulators sharing one logger argument)",
  "Tests look at lengths for two or three fixed set-ups.",
  [B], [("SimLogger", B), ("Simulator.step / initialize_starting_state", B)], [("dic_results", "records", B)], ["SimLogger.get", "SimLogger.length"])

p("C04", "Getters always show the current state and observing never changes a run",
  "Between two steps a getter returns the value belonging to the current state, the same value every time, equal (for one household index) to the entry of the full result, and never a value kept from before the last step or from another simulator instance; a value it handed out stays as it was handed out, whatever steps follow, and what it shows does not depend on what the caller does with the arrays given to a step after that step. With the same random seed, a run in which getters are called or a logger is attached at any moment goes through exactly the same states as a run nobody observed.",
  ["histories", "schedules"], "every interleaving of getter calls, logger visits and steps, for every simulator class",
  "Tests read getters at fixed moments; a stale cache or an observation that feeds back shows only in particular interleavings.",
  [B, ACT, APP, HEAT, SPS, "demod/simulators/load_simulators.py"], [("cached_getter", B), ("Simulator.step clears the cache", B), ("MultiSimulator getter cache", B)],
  [("_cache", "cached getter results", B)], ["get_* of every simulator"])

p("C05", "A multi-simulator behaves as the concatenation of its sub-simulators",
  "A multi-simulator has the sum of its parts' households, hands each part exactly its own slice of every step argument in order, steps every part exactly once per step, and each of its getters returns the parts' current results concatenated in the same household order; a subgroup mask selects exactly the households of parts whose subgroup has all requested attributes.",
  ["configurations", "histories"], "every split of households into parts, every argument pattern (positional and keyword) and number of steps",
  "Tests use one or two fixed splits with few steps.",
  [B], [("MultiSimulator", B)], [], ["MultiSimulator.step", "get_*", "get_mask_subgroup"])

p("C06", "Activity chains follow the transition matrices of the right time of day",
  "In every first-order activity or occupancy simulator each household's (or person's) new state at a step is one the transition matrix of that time of day and day type gives positive probability from its current state; matrices are used in cyclic order starting at the initialisation time, and switching weekday/weekend matrices happens exactly at the data's refresh time while every household keeps the state its label names (the first state if the new matrices do not know that label; likewise a sparse matrix without any successor for a state leads to the first state). Households are mutually independent and a state can be reached only through the matrices or the initial distribution.",
  ["histories", "inputs", "configurations"], "every sequence of matrices, current states, numbers of households and start datetimes",
  "Tests check shapes and value ranges; off-by-one matrix positions and label mix-ups keep all of these.",
  [ACT, SPS, "demod/simulators/crest_simulators.py"], [("MarkovChain1rstOrder.step / _assign_new_labels", ACT), ("SparseTransitStatesSimulator", SPS), ("Crest4StatesModel", "demod/simulators/crest_simulators.py")], [], ["get states/labels after each step"])

p("C07", "Semi-Markov activities last exactly as long as drawn",
  "In the semi-Markov activity simulator an individual who enters a state stays in it for exactly the duration drawn from that state's duration distribution for the time of entry, and changes state only when that duration has run out, the new state being one the transition matrix of that moment allows; nobody ever changes state earlier or later, and durations with zero probability never occur.",
  ["histories", "inputs"], "every sequence of durations and transitions, for all individuals in parallel",
  "Tests only run the simulator and check shapes.",
  [ACT], [("SemiMarkovSimulator", ACT)], [("times_left", "remaining duration", ACT)], ["current states after each step"])

p("C08", "A sparse matrix set behaves exactly like the dense one it stands for",
  "Reading, assigning, iterating, sampling from, saving and loading a sparse set of transition matrices gives exactly what the corresponding dense array would give: the matrix read at a time is the one last assigned (times wrap around), other times are untouched, iteration yields every time once in order, a sampled successor always has positive probability in the matrix of that time, and a saved and reloaded set is equal to the original in contents and size. Construction refuses index and value lists of different lengths.",
  ["inputs", "histories"], "every set of matrices and every sequence of read, assign, iterate, sample, save and load operations",
  "Tests do one assignment and one read on a fixed matrix.",
  ["demod/utils/sparse.py"], [("SparseTPM", "demod/utils/sparse.py")], [], ["SparseTPM operations"])

p("C09", "Occupancy counts stay consistent with residents and activities",
  "At every step and for every household, 0 <= active occupants <= occupants <= residents; occupants are the residents who are not away, active occupants those neither away nor sleeping (in the transit and CREST models, which only count, the smaller of the numbers at home and active), thermal gains follow from these two counts, and the number of residents doing each activity adds up over activities to the number of residents. Aggregating individuals to households counts every individual exactly once, in his own household.",
  ["histories", "configurations"], "every population layout (household sizes, subgroups, orders) and every reachable state of every occupancy/activity simulator",
  "Tests check one population of equal households and sums only.",
  [ACT, SPS, "demod/simulators/crest_simulators.py"], [("get_occupancy / get_active_occupancy / get_activity", ACT), ("SubgroupsIndividualsActivitySimulator", ACT)], [], ["get_occupancy", "get_active_occupancy", "get_n_doing_activity"])

p("C10", "Appliances run their whole cycle, only where owned and only when allowed",
  "In every appliance simulator an appliance is only ever in use in a household that owns it, is started only when it is not already running and not in its after-cycle delay, and once started stays on for exactly its duration, unless it is one that stops when nobody is active and the household has become inactive, in which case it is off at that step; after a cycle it stays off at least for its delay. An appliance whose related activity is not going on (or has probability zero) is never started. In the simulator driven by activities alone the use lasts exactly as long as the related activity instead; an appliance that follows an activity or another appliance starts only at the step where that one ends.",
  ["histories", "inputs", "configurations"], "every ownership, duration, delay, activity and occupancy history",
  "Tests run a few steps and look at ranges.",
  [APP], [("AppliancesSimulator", APP), ("OccupancyApplianceSimulator", APP), ("ActivityApplianceSimulator", APP), ("ProbabiliticActivityAppliancesSimulator", APP)], [], ["get_current_usage"])

p("C11", "Appliance power and water follow exactly from what is in use",
  "At every step the electric power of a household equals the sum over its owned appliances of the mean (or recorded profile) consumption of those in use and the standby consumption of those not in use, appliances it does not own contributing nothing; a recorded profile is played from its first to its last sample, one sample per step, and is never read beyond its end. Water and hot-water draws follow the same rule from the water-using appliances in use.",
  ["histories", "configurations"], "every usage history, ownership and profile set",
  "Tests check totals for one configuration.",
  [APP], [("get_power_consumption and related getters", APP)], [], ["get_power_consumption", "get_water_consumption", "get_dhw_heating_demand"])

p("C12", "Thermostats switch with hysteresis exactly at their deadbands",
  "Every thermostat (space, water, emitter) turns on only when the temperature has fallen to or below its set point minus the deadband, turns off only when it has risen to or above the set point plus the deadband, and otherwise keeps the previous signal; households are independent and a set-point change takes effect at the next step.",
  ["histories", "inputs"], "every temperature and set-point history, including values exactly on a threshold",
  "Tests check two temperatures.",
  [HEAT], [("Thermostats", HEAT), ("VariableThermostat", HEAT)], [], ["thermostat signals"])

p("C13", "Heat is allocated within capacity, hot water first, and only on demand",
  "At every step a heating system delivers to space heating and hot water only where the controls ask for it, never more than the demand, never a negative amount and never more than its capacity, hot water being served first and space heating getting at most what is left; the heat asked for is the one that would bring the cylinder, and the emitters (or the room, depending on the algorithm), to the upper end of their band within one step; fuel and electricity follow from the delivered heat, including systems without one of the two outputs.",
  ["inputs", "histories", "configurations"], "every combination of controls, demands, capacities and system types per household",
  "Tests check one or two demand values.",
  [HEAT], [("HeatingSystem", HEAT), ("SystemControls", HEAT), ("HeatDemand", HEAT)], [], ["heat outputs", "fuel and power consumption"])

p("C14", "External heating inputs replace the module outputs only where given",
  "Giving the heating simulator external target temperatures, heat outputs (one total to be split hot water first, or hot water and space heating apart, the latter taking precedence) or a cylinder temperature replaces the simulated value for exactly the households and quantities that are not NaN: heat outputs and cylinder for exactly that step, target temperatures until new ones are given. Every other value is what it would have been without the external input, a household with external heat has no power demand for heating; a heating system set from outside gives its boilers and cylinders to the simulation from then on. The caller's arrays and dictionaries are not modified.",
  ["inputs", "histories"], "every pattern of given and not-given entries, per module and per step",
  "Tests use one fully specified array.",
  [HEAT, "demod/simulators/helpers.py", "demod/simulators/util.py"], [("assign_external_array / assign_external_dict", HEAT)], [], ["get_* of the heating simulator"])

p("C15", "Building temperatures obey the energy balance of the thermal network",
  "At every step the change of each thermal node (envelope, indoor air, emitters, hot-water cylinder) times its capacitance equals the step duration times the sum of the heat flows into it, evaluated at the state before the step; heat exchanged between two nodes leaves one and enters the other. A network in equilibrium stays in equilibrium and households do not influence each other.",
  ["inputs", "histories"], "every parameter set, temperature state and input history",
  "Tests check that temperatures move in the right direction.",
  [HEAT], [("BuildingThermalDynamics.step", HEAT)], [], ["get_temperatures"])

p("C16", "Lighting follows active occupancy and irradiance, bulb by bulb",
  "No light is on in a household without active occupants; the occupancy-based model's power is the active occupants times the use per person times the clipped irradiance factor in [0, 1]; in the bulb-based model a bulb that was switched on stays on for its drawn duration unless the household becomes inactive, only bulbs that are installed and off can be switched on, and only when it is dark enough for that household. The reported power is the sum of the ratings of the bulbs that are on.",
  ["histories", "inputs"], "every occupancy and irradiance history",
  "Tests check shapes and one occupancy value.",
  ["demod/simulators/lighting_simulators.py"], [("FisherLightingSimulator", "demod/simulators/lighting_simulators.py"), ("CrestLightingSimulator", "demod/simulators/lighting_simulators.py")], [], ["get_power_consumption"])

p("C17", "The load simulator steps its parts in lockstep and adds up their loads",
  "One step of the load simulator advances climate, appliances, lighting and heating by exactly one step and the activity part on the first of every ten load steps, all parts staying on the same simulated time; every part is given what the parts it depends on show for that very step (climate first, then activity, appliances, lighting, heating), or the external value wherever one was passed; the total power of every household equals the sum of the powers of its parts, and a step that is refused because external weather is missing steps nothing.",
  ["histories", "configurations"], "every combination of parts, external inputs, every number of steps and start datetime",
  "Tests run a few steps and check shapes.",
  ["demod/simulators/load_simulators.py"], [("LoadSimulator", "demod/simulators/load_simulators.py")], [], ["get_power_demand", "get_current_time of the parts"])

p("C18", "Climate simulators report the values of the simulated moment",
  "A climate simulator fed with recorded data in a time zone of fixed offset (or naive, meaning UTC) reports at every step the most recent record not after the simulated time (the interpolating one the linear interpolation between the neighbouring records, for any step size), refuses starts outside the records, and a generated climate shows at every moment of every day the irradiance and temperature of that moment, whatever the time of day the run was started.",
  ["histories", "configurations"], "every start datetime, step size and record spacing",
  "Tests start at a few fixed datetimes within a month.",
  ["demod/simulators/weather_simulators.py"], [("RealClimate", "demod/simulators/weather_simulators.py"), ("RealInterpolatedClimate", "demod/simulators/weather_simulators.py"), ("CrestClimateSimulator", "demod/simulators/weather_simulators.py")], [], ["get_outside_temperature", "get_irradiance"])

p("C19", "Monte Carlo draws invert the distribution for every random number",
  "For every distribution and every random number in [0, 1) the Monte Carlo helpers return the outcome whose cumulative interval contains that number: always a valid index, never an outcome of probability zero, each row independent of the others, for 1-D and 2-D inputs, counts or single draws; validity checks accept exactly the proper distributions.",
  ["inputs"], "every distribution (zeros at the start, in the middle and at the end, rounding of the total) and every random number including boundaries",
  "Tests sample random numbers, which never hit the boundaries.",
  ["demod/utils/monte_carlo.py", "demod/utils/distribution_functions.py"], [("monte_carlo_from_cdf and related functions", "demod/utils/monte_carlo.py")], [], ["return values"])

p("C20", "Population sampling hands out exactly the requested households",
  "Sampling a population gives non-negative integer counts per subgroup that add up to exactly the requested number of households, for every algorithm, number and distribution; subgroups of probability zero get no household, and the proportional algorithm stays within one household of each subgroup's exact share.",
  ["inputs", "configurations"], "every distribution, number of households and sampling algorithm",
  "Tests use one distribution and a few numbers.",
  ["demod/helpers.py", "demod/utils/monte_carlo.py"], [("subgroup_file/sample_population", "demod/helpers.py")], [], ["sampled counts"])

p("C21", "Diaries, transitions and matrices describe the same behaviour",
  "Turning activity diaries into transitions loses nothing: every change of state of every person appears exactly once, in time order, with the right time, person, states and duration (time is cyclic; when the change from the end to the start is ignored it is left out, and a run cut by the end of the diary has duration 0 unless the diary begins with the same state), and the diaries can be rebuilt from it. With a secondary activity a state changes only when it is no longer done at all; household transitions count the members of one household doing the same change on the same day. The transition and duration matrices derived from diaries are, for every time and state, the exact proportions of the observed successors and durations (the first one, if asked, replaced by the last; people who never change stay the whole time); rows of never-visited states keep the state, resp. have duration 0; first-duration distributions are the proportions of the first runs. Merging states gives each state the label its rule says. Counts, diaries and other inputs are not modified.",
  ["inputs"], "every set of diaries (constant ones, changes at the first and last step, unvisited states, one person, one step)",
  "Tests use two small diaries.",
  ["demod/utils/parse_helpers.py"], [("states_to_transitions (and _secondary, group_hh_transitions)", "demod/utils/parse_helpers.py"), ("states_to_tpms / states_to_tpms_with_durations / get_initial_durations_pdfs / counts_to_pdf / convert_states", "demod/utils/parse_helpers.py")], [], ["return values"])

p("C22", "Duration statistics account for every time step of every diary",
  "The duration metrics partition every diary into its maximal runs of one state (time is cyclic, a diary without change is one run): the durations of all states add up to all time steps of all diaries, each run appears exactly once with its state, the per-state grouping has exactly the states of the diaries and contains exactly those durations, and counts or distributions of first durations made from the diaries are consistent with the runs.",
  ["inputs"], "every set of diaries (constant ones included)",
  "Tests use two small examples.",
  ["demod/metrics/states.py", "demod/utils/parse_helpers.py"], [("get_states_durations / get_durations_by_states / count", "demod/metrics/states.py"), ("get_initial_durations_pdfs", "demod/utils/parse_helpers.py")], [], ["return values"])

p("C27", "State metrics measure the patterns as they are defined",
  "For every pair of sets of state patterns, the average state error is the absolute difference of the average states at each time (averaged over the times if asked); the duration distribution error of each state visited in either set is the absolute difference of the cumulative distributions of its durations at 0 .. n_times (averaged over these if asked), a state that is not visited having no durations; the graph metrics count each state at a time once (size), the different transitions between consecutive times out of all possible ones (density), the average number of times they are taken (centrality) and the share of steps that keep the state (homophily), time being cyclic; sparsity is the share of zeros. Inputs are not modified.",
  ["inputs"], "every pair of sets of patterns (states visited in one only, constant patterns, different numbers of patterns)",
  "Tests use two or three small examples in which every state is visited in both.",
  ["demod/metrics/states.py"], [("average_state_metric / state_duration_distribution_metric / graph_metrics / sparsity", "demod/metrics/states.py")], [], ["return values"])

p("C23", "Subgroups and time attributes identify households and moments uniquely",
  "The text form of a subgroup does not depend on attribute order and differs for subgroups that differ in documented attribute values, subgroups are strictly ordered, the day type, weekday and quarter attributes added for a datetime are those of that datetime for every date, removing time attributes removes exactly these, and expanding a household subgroup into persons (for a household type consistent with its residents) gives exactly as many persons as residents; apart from the time attributes it is asked to set, none of this modifies the subgroup passed in.",
  ["inputs"], "every attribute combination and every datetime",
  "Tests use three subgroups and two dates.",
  ["demod/utils/subgroup_handling.py"], [("subgroup_string / add_time / subgroup_households_to_persons", "demod/utils/subgroup_handling.py")], [], ["return values"])

p("C24", "Loading from the parsed cache gives what the first load gave",
  "The first load of a dataset item parses it once and stores it; every later load by any loader instance (new or kept from before) of the same dataset, version, activity type and subgroup returns equal data without parsing again until that version is cleared, after which it is parsed anew; items of different kinds, subgroups, versions, activity types, weightings or step sizes never answer for one another (dense and sparse matrices of one activity type are not both parsed). If parsing raises, the load raises and stores nothing; if the process is stopped at any point of a load, or the disk is full, or several processes load at once in any interleaving, later loads return the whole item as parsed, never a part of it, and never fail because of what was left behind. Clearing without a version asks until it is answered yes or no. Covers base loaders, CREST, German time of use, Ninja and tracebase data (downloads included).",
  ["histories", "crash_points", "schedules", "configurations"], "every sequence of loads and clears over items, subgroups, versions and instances, a stop at every file operation and byte of a store, and every interleaving of the file operations of several processes",
  "Tests load items that are already parsed, in one process that is never stopped.",
  ["demod/datasets/base_loader.py", "demod/datasets/tou_loader.py", "demod/utils/sparse.py", "demod/datasets/RenewablesNinja/loader.py", "demod/datasets/GermanTOU/loader.py", "demod/datasets/tracebase/loader.py", "demod/datasets/CREST/loader.py"], [("load_* / _parse_* pairs", "demod/datasets/base_loader.py"), ("SparseTPM.save/load", "demod/utils/sparse.py")], [], ["load_* results", "which parse functions ran", "later loads by other processes"])

p("C25", "Historical climate windows start at the record in force at the requested time",
  "Requesting historical climate from a start returns every record from the last one not after the start (naive times are UTC, aware times are converted) to the end of the data, in order, for all quantities alike; a start after the last record is refused.",
  ["inputs"], "every start (on, between, before and after records, with time zones) and record spacing",
  "Tests ask for one start.",
  ["demod/datasets/base_loader.py"], [("ClimateLoader.load_historical_climate_data", "demod/datasets/base_loader.py")], [], ["return value"])

p("C26", "Load metrics are faithful rearrangements of the load profiles",
  "Total energy is the sum of each profile times the step size. A load duration curve (of several profiles or a single one) gives, for the sorted loads asked for or every load that occurs, the number of steps of each profile at or above the load, so that it contains exactly the energy of the profile. The cumulative distribution of changes in demand counts every change between successive steps exactly once, in the bin [edge, next edge) it lies in (the last bin closed), relative to the largest change when normalized (the default); edges that do not cover all changes are refused. The diversity factor is the sum of the individual peaks over the peak of the sum, coincidence and simultaneity factor its inverse, time coincident demand the peak of the average profile; similarity and variety are the distances between the right profiles. Inputs are not modified.",
  ["inputs"], "every load array (single and several profiles, integer and float, constant, zero, short)",
  "Tests use a few arrays without normalization, single profiles or changes on an edge.",
  ["demod/metrics/loads.py", "demod/metrics/errors.py"], [("load_duration, cumulative_changes_in_demand, diversity_factor, ...", "demod/metrics/loads.py")], [], ["return values"])

p("C28", "Variable thermostats set the temperature their pattern asks for",
  "Every household starts at the mean temperature of its own pattern, which it keeps for the whole simulation. In the patterns that follow people the set point only changes when people leave the home (to the low temperature), arrive or wake up (to mean plus deviation), go to bed (to the mean), in this order of importance and compared with the previous step, or, while somebody is active, by a comfort change to one of the half degrees from mean to mean plus deviation; an on/off household is at its mean exactly when somebody is in and at the low temperature otherwise; a constant pattern repeats the same wake-up, leaving, return and bed times every day whatever people do. Households do not influence one another, and the occupancy arrays passed in are neither kept nor modified.",
  ["inputs", "histories", "configurations"], "every history of occupancies and activities, every mixture of patterns in the households, every time of day",
  "No test runs the variable thermostat beyond its construction.",
  [HEAT], [("VariableThermostatTemperatureSimulator.step / attribute_patterns", HEAT)], [("current_temperature", "set point of each household", HEAT)], ["get_thermostat_temperature"])

p("C29", "Appliances are owned and used as often as the data of their type say",
  "An appliance takes the number (ownership probability, yearly target of uses) of its own type, or of the closest parent type that the data list, the n-th appliance resolving to the same type takes the n-th entry (none: 0), and one without any entry takes its default. A household owns an appliance exactly when the number drawn for it is below the probability of its own subgroup (all of them, or exactly the given set, with the respective algorithm); wrong algorithms and numbers of households are refused. The probability of use makes the expected number of uses per year equal the target: over the steps of the related activity, over the ends of the previous activity times residents, or over the uses of the previous appliance, whichever the appliance starts after, for every order of the activities. Data passed in are not modified, and a second simulator on the same data gets the same appliances; merging two lists of appliances keeps both in order, splitting a number of appliances into probabilities of a first, second, ... keeps the number.",
  ["inputs", "configurations"], "every list of appliance types, dictionary of numbers, mixture of subgroups, order of activities",
  "Tests resolve three types and never check the probabilities obtained.",
  [APP, "demod/utils/appliances.py"], [("find_closest_type / get_ownership_from_dict / get_target_from_dict / merge_appliance_dict", "demod/utils/appliances.py"), ("sample_available_appliances / sample_switch_on_probs", APP)], [("available_appliances", "which household owns what", APP), ("switch_on_probs", "probability of use", APP)], ["available_appliances", "switch_on_probs", "return values"])

p("C30", "Data parsed from the German time-use survey say what the diaries say",
  "A subgroup selects exactly the diaries that satisfy every requirement (a list: any of its values; an age range includes its lower and excludes its upper bound; quality filters act unless turned off). A person begins the day where the diary says (not told: by the rating of the first activity), is never at home on a journey and changes place only by a journey: after it the person is where the activity belongs (rating of main plus secondary activity), when that is open somewhere else than before, and after the last journey where the diary says the day ended (the start of the next day if so marked, else by the last activity). Labelled diaries say away when the person is not at home, else the label of the main activity, or of the secondary one where the main is 'other'. Initial distributions, transition matrices (single residents, households of four states, sparse with the kind of absence), durations, activity probabilities, starts per person and day, and activity profiles by active occupants are the exact proportions of these diaries, every label listed once.",
  ["inputs"], "every survey (households, persons, diaries, missing days) and every subgroup",
  "No test has the survey files, so the parser is never run by the tests.",
  ["demod/datasets/GermanTOU/parser.py", "demod/datasets/GermanTOU/loader.py", "demod/datasets/tou_loader.py"],
  [("get_mask_subgroup / states_to_occupancy / get_tpms_activity / get_data_4states / get_data_sparse9states / create_data_activity_profile", "demod/datasets/GermanTOU/parser.py"), ("GTOU.get_states and _parse_*", "demod/datasets/GermanTOU/loader.py")],
  [("occ", "where every person is at every moment", "demod/datasets/GermanTOU/parser.py")], ["get_mask_subgroup", "get_states", "load_*"])

p("C31", "Recordings, ownership tables, input sheets and climate files load as they say",
  "Tracebase recordings: every recording of a known device type is kept under its demod type, loads between entries change evenly, and every step of the profile (step_size, the last one completed with zeros, none added) holds the energy of its seconds from the first to the last entry; the 'switchedON' profiles are the selected recordings cut to the first and last step above 6 W. DESTATIS ownership: the column is the one of the subgroup (household type first, then residents, revenue, year; refused when there is none), the last row of a type counts, its share is the probability of owning one, and what the number of appliances leaves is split over a second, third, ... appliance of at most 1 each; time attributes do not matter. Population subgroups and shares are those published. Input sheets: every named column under its name without spaces, cells in order, texts without spaces, flags as booleans, 'number' the number of rows; lighting numbers, bulbs and yearly targets come from their cells. Climate files: times and quantities in order under their names, irradiance the sum of its two columns. Synthetic loads of FfE are those of heat, and the sums (not the phases) of electricity, in W unless asked otherwise, with their household types. GermanDataHerus answers what its source (survey, statistics, climate of Germany, tracebase, own sheet) answers.",
  ["inputs"], "every recording, table, sheet and file of the documented layout, every subgroup and step size",
  "Tests only read the shipped files and check that something is returned; they cannot know what other contents should give.",
  ["demod/datasets/tracebase/loader.py", "demod/datasets/DESTATIS/loader.py", "demod/datasets/ExcellInputFile/loader.py", "demod/datasets/RenewablesNinja/loader.py", "demod/datasets/OpenPowerSystems/loader.py", "demod/datasets/Germany/loader.py", "demod/datasets/FfE_Open_Data/__init__.py"],
  [("Tracebase.load_real_profiles_dict / Destatis.load_appliance_ownership_dict / InputFileLoader.load_* / load_historical_climate_data", "demod/datasets"), ("GermanDataHerus", "demod/datasets/Germany/loader.py")],
  [("profiles", "profiles_dict[type][recording]", "demod/datasets/tracebase/loader.py"), ("own", "ownership_dic", "demod/datasets/DESTATIS/loader.py")], ["load_*"])

p("C32", "Plots show exactly what was recorded, or given",
  "SimLogger.plot() shows one figure, plot_column() one row of a figure, for every logged attribute but 'current_time', in order: a line per household of a profile that was not aggregated (labelled attribute_hh_i), one line with the sum over households when asked to aggregate, one line for a profile without households, and the same for each part of a dictionary; every line has all records but the last, over the steps (plot_column: over the logged times when there are, as steps held until the next record), and the legend names every line. Added loggers show both. plot_household_activities marks exactly the moments with residents at the row of each activity (main activities on top, else as given) in the colour of their number, with a legend up to the largest number. Stacked plots (appliances grouped by the chosen attribute in the chosen order, states, activities) have one area per name, each on top of those before, as wide as the sum, count or number it stands for, stepped as asked. Figures are shown when no ax is given, and left to the caller when one is.",
  ["inputs"], "every logged history and every profile, number of households, labels and axes",
  "Tests never plot: no test can tell whether a line or an area is what was recorded.",
  ["demod/simulators/base_simulators.py", "demod/utils/plotters.py"],
  [("SimLogger.plot / plot_column", "demod/simulators/base_simulators.py"), ("plot_household_activities / plot_appliance_consumptions / plot_stack_states / plot_stacked_activities", "demod/utils/plotters.py")],
  [("recs", "logged records", "demod/simulators/base_simulators.py"), ("band", "stacked areas", "demod/utils/plotters.py")], ["SimLogger.plot", "plot_column", "plot_*"])

p("C33", "The CREST workbook loads as its sheets say, stored or not",
  "Reading the CREST workbook: the transitions of n residents (1 to 6, others refused, week and week-end days) hold for each of 144 times and each state <present, active> the row of the sheet of that time and state, scaled to make up one; states without weights stay; a sheet with a row not near one is refused. The starting states of n residents are the lines of their states in the sheet of the day type. Activity profiles are those of the day type, activity and number of active occupants, with level and active occupancy besides. Appliances carry the names, types, activities, share of owners, durations, delays, switch on probabilities, powers of their rows (the four water fixtures flow instead of power, read apart); all but those used by level, by washing and the dish washer stop when nobody is active; owned numbers of a type are told apart. Clearness transitions, population shares by number of residents, lights with their calibration and irradiance statistics, bulbs of houses, powers and penetrations, buildings, heating systems, thermostat set points, and the cycles of washing and drying appliances are those of their sheets; and what was stored when read first loads as the same thing.",
  ["inputs"], "every workbook of the documented layout, every number of residents, day type and cycle",
  "Tests read only what was parsed before and shipped: the workbook is not distributed, so that its reader is never run.",
  ["demod/datasets/CREST/loader.py", "demod/datasets/CREST/utils.py", "demod/utils/parse_helpers.py"],
  [("Crest.load_* on a dataset that stores nothing", "demod/datasets/CREST/loader.py")],
  [("cells", "pd.read_excel frames", "demod/datasets/CREST/loader.py"), ("tpm", "tpm, labels, activity legend", "demod/datasets/CREST/loader.py")], ["load_*"])

COMMON = (" Bounded: the design specification is explored exhaustively in small constants, the code is judged on the behaviours TLC generates and on recorded seeded runs."
          " Trusts TLC, the Python projection of public API values to integers, and numpy/datetime.")
NOTES = {
"C33": "A reader that goes down a sheet of transitions is explored exhaustively over all small sheets (every row in place, distributions, unreached stay, bad sheets refused), and the lines of starting states for all numbers of residents; every printed sheet is embedded in a workbook, and random workbooks with different contents in every cell are written in the layout the reader expects and read by the real loader twice (workbook, store) in a scratch copy of the package without network; TLC computes what every load must give. The layout itself is taken from the reader (the shipped parsed data agree with it)." + COMMON,
"C32": "A logger that is visited and cleared, and areas drawn one on the other, are explored exhaustively (lines as long as the profiles, the merged line is the sum of the households', the top is the total); every history printed by TLC and random longer ones are logged by the real SimLogger with attributes of every kind, plotted both ways without a display, and lines, axes, labels and legends are read back from the figures; random activities, consumptions and states are plotted with and without ax, axes of positions, numbers and dates, and points, colours and bounds of areas are read back. Colours beyond those given and pictures of more than two dimensions are left out." + COMMON,
"C31": "A meter that reads one second after the other is explored exhaustively over all small recordings and step sizes (energy is kept, as many steps as needed, cutting keeps what is on); every printed recording and random longer ones become files the real loader reads in a scratch copy of the package, with random ownership tables, input sheets and climate files written in the shipped layouts; TLC computes the profiles, splits the numbers owned, reads the cells. The German data set is compared with its sources. What the columns of climate files mean physically (cloud cover as clearness, surface plus top-of-atmosphere irradiance) is taken as coded." + COMMON,
"C30": "A reader that tells the whereabouts from a diary is explored exhaustively over all small diaries (same as looking back from any moment, never home on a journey, moves only by journeys, ends where said); the printed diaries are stretched over the day and, with random surveys made of them, written as survey files the real parser is imported on; TLC selects the subgroups, labels and groups the diaries and counts the proportions, at moments around the changes. The ratings and label tables are taken from the code as data; the real survey is not available." + COMMON,
"C28": "Set points of one household are explored exhaustively (bounds, warm when people are in, low after leaving); every behaviour printed by TLC for every kind of pattern and random longer ones with mixtures of households run on the real simulator with scripted draws and steps on a ten-minute grid; timed patterns, whose times are drawn inside, are judged through the existence of a daily schedule that explains the whole series." + COMMON,
"C29": "Resolution of types is explored exhaustively over small lists of types and dictionaries; every list and dictionary printed by TLC goes through the real functions, and random households of three kinds of simulators are equipped twice with one scripted uniform number, whose owners and yearly numbers of starts TLC computes; probabilities are compared through starts = target / probability to 1/16 start." + COMMON,
"C24": "A store of items written by processes that can be stopped between any two file operations (write aside, publish, clear) is explored exhaustively (never torn, published at most what was parsed, a returned load is stored); every history of loads, failing parses, stops, full disks and clears, and every interleaving of two or three processes printed by TLC, is run with 30 kinds of real loaders in scratch datasets: stops are placed before every file operation, when a file was just opened and at byte limits in forked children, items of several kinds share a dataset in one more set of runs, interleavings held at every file operation; TLC judges results and number of parses. Data tables are made up (no network); the loaders of FfE (pickled labels) are left out." + COMMON,
"C26": "A reader of profiles is explored exhaustively over all small sets (running totals equal the definitions, the duration curve holds all energy, every change counted once, diversity at least 1); every set printed by TLC and random larger ones go through the real functions and TLC evaluates the definitions; changes lying exactly on an edge are judged exactly where edge and change are exact floats, and to within the edge otherwise." + COMMON,
"C21": "The reader of diaries is explored exhaustively over all small sets of diaries (every change emitted once, diaries rebuilt, counts balanced, runs fill the time axis); every set printed by TLC and random larger ones (several label kinds and dtypes) go through the real functions and TLC computes the expected transitions, matrices and distributions." + COMMON,
"C22": "Same specification as C21 (runs partition every diary, proved on all small sets); every set printed by TLC and random larger ones go through the real functions, and the multiset of runs is compared by TLC." + COMMON,
"C27": "Same specification as C21; the metrics of every set printed by TLC and of random larger ones, against another set, are compared with the definitions evaluated by TLC." + COMMON,
"C04": "The cache and phase model (SimCore) is explored exhaustively and its behaviours replayed on small simulators; 31 kinds of real simulators (every class that runs without missing data) are observed following schedules printed by TLC (getters in any order, by household, logger attached or not, another instance interleaved, step inputs overwritten afterwards) and TLC compares every value, log record and random generator state with a run of the same seed that was read in forked children only." + COMMON,
"C17": "The phases of a load step are explored exhaustively (versions seen = versions shown at the end of the step); every sequence of external inputs of the model, over all combinations of parts and both activity and climate fall-backs, is run on the real simulator with every part's step watched: what each part was given is compared by TLC with what the others show after the step." + COMMON,
"C01": "Every configuration of the small calendar is replayed and random starts, step sizes down to microseconds, zones and initialisation moments are recorded through TimeAwareSimulator; each step and the ready state are judged." + COMMON,
"C02": "All six decorators and the four module-level ones are driven over every month end of five years (leap and not) and random starts; each step's callbacks, their order and the clock they saw are judged. Limited to step sizes up to one hour as stated." + COMMON,
"C03": "Design model of cache, logger and phases explored exhaustively; logs of 31 kinds of real simulators compared with an unobserved run of the same seed; every behaviour of the generator (steps, initialisation, getter calls, attributes, aggregation) is replayed on small simulators built on the base classes, and logs are compared record by record." + COMMON,
"C05": "Every split of households into parts, argument pattern and short run of the model is replayed on real MultiSimulators, plus random larger ones; slices, step counts, getter concatenation and subgroup masks are judged." + COMMON,
"C08": "Operation sequences printed by TLC and random ones run on SparseTPM in several entry orders; reads, iteration, save/load are judged exactly against the dense set, draws for support and (with scripted uniforms) exact shares." + COMMON,
"C06": "Runs of MarkovChain1rstOrder, SubgroupsIndividuals, the two sparse simulators and Crest4States on made-up matrix sets (different per day type, quarter and subgroup, labels shuffled and dropped) are judged step by step against the matrix of the moment; deterministic behaviours of the model are replayed exactly." + COMMON,
"C19": "Scripted random numbers (every boundary of the integer distributions, the largest float below 1) are fed to every helper; outcomes are compared with the specified inverse." + COMMON,
"C20": "Every small distribution and count of the model is sampled with every algorithm, plus random larger ones; counts are judged against the exact shares." + COMMON,
"C23": "Random and enumerated subgroups and every date of several years; text forms, added attributes, ordering and expansions are judged." + COMMON,
"C07": "Deterministic behaviours of the model (3-D and 4-D durations) are replayed exactly; random runs of SemiMarkovSimulator and of SubgroupsIndividuals with day types, quarters and changing labels are followed by the set of (state, steps left) pairs the distributions allow." + COMMON,
"C12": "The household model of spec/MCHeating (all modules with external inputs) is explored for every short history; its behaviours are replayed on FiveModulesHeatingSimulator, and Thermostats alone is driven with temperatures on, one unit above and below every threshold. Exact for dyadic values; where a long run had to be rounded, a value within one rounding unit of a threshold is not judged." + COMMON,
"C13": "Same model; controls, demand, heat outputs, fuel, power and energy of SystemControls, HeatDemand, HeatingSystem and FiveModulesHeatingSimulator on made-up systems (also without one or both outputs) are judged per household and step." + COMMON,
"C14": "Same model with every pattern of external inputs; random patterns of NaN and values for several households are judged per household, and the caller's arguments are compared before and after." + COMMON,
"C15": "Same model (balance, equilibrium and met demands are invariants of it); recorded node temperatures of BuildingThermalDynamics and FiveModulesHeatingSimulator must satisfy K * change = flows, exactly where values are dyadic and up to rounding in longer runs." + COMMON,
"C10": "Design model of the three use rules (occupancy, activity, activity with probabilities) with history variables explored exhaustively; its behaviours are replayed with every draw of a step scripted, and random appliances, ownerships, delays, profiles and activities are run with scripted draws (uses judged exactly) and real ones (judged by what holds for every draw)." + COMMON,
"C11": "Same runs as C10: power and water of every appliance, and the sums per household, are judged at every step against the specification, with recorded profiles of distinct samples so that every position shows." + COMMON,
"C16": "Bulb model explored exhaustively (history variables: age and drawn duration of every bulb); its behaviours and random occupancies and irradiances (on and around every threshold) are run with every draw of a step scripted and judged bulb by bulb, the ratings being powers of two; runs with real draws are judged by what holds for every draw, and the occupancy model is judged exactly." + COMMON,
"C18": "Every start, spacing and zone offset of the model is replayed on RealClimate and RealInterpolatedClimate with made-up records (also through the two parsed file formats); the generated climate, with nothing left to chance, is compared minute by minute with a run from midnight." + COMMON,
"C25": "Every start on, between, before and after records, naive and with zones, regular and with missing records, freshly parsed and from the stored file." + COMMON,
"C09": "Every small layout of households and every assignment of activities to person types of the model is replayed on SubgroupsIndividuals with deterministic matrices; random layouts, transit and CREST models on made-up labels are judged per household and step." + COMMON,
}
