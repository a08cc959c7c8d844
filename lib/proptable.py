"""The properties (besides P11 and P20 in manifest.py)."""
B = "core/src/base/"
C = "core/src/containers/"
PR = "core/src/processes/"
BR = "core/src/bricks/"
FL = "core/src/fluxes/"
SP = "core/src/spatial/"
AC = "core/src/actions/"


def fill(prop, NA):
    prop("P01", "Water is conserved over the whole basin at every time step",
         "In every time step, the change of the water, snow and ice stored in the basin equals the precipitation minus "
         "the discharge at the outlet and the water given to the atmosphere, each weighted by the area it applies to. "
         "The totals reported for a run (discharge, evapotranspiration, storage changes) close the balance with the "
         "precipitation.",
         ["configurations", "inputs", "histories"],
         "All model structures (land covers, snow, glaciers, soil and groundwater stores, unit hydrographs), solvers, "
         "basin layouts, parameters and forcing; groundwater exchange and inexhaustible ice count as external sources.",
         "Tests close the balance for a handful of structures with one forcing; lost water appears only when several "
         "limits bind in the same step, for particular area weights or orders of the units.",
         [B + "Processor.cpp", B + "SubBasin.cpp", B + "ModelBuilder.cpp", C + "WaterContainer.cpp", B + "Logger.cpp"],
         [("ProcessTimeStep, ApplyDirectChanges, ApplyRates", B + "Processor.cpp"),
          ("area weights of the fluxes", B + "ModelBuilder.cpp"), ("totals", B + "Logger.cpp")],
         ["contents of all stores after each step", "outlet discharge", "process outputs", "ModelHydro totals"],
         "MC_Ledger shows that local bookkeeping with area weights implies the basin balance; recorded steps of random "
         "models must satisfy the same operators (TraceLedger, mode basin), including the reported totals.")
    prop("P02", "Every store changes by exactly the fluxes that enter and leave it",
         "Over a time step the content of each store changes by the sum of the fluxes it receives minus those it emits, "
         "where a flux from a part of a hydro unit, from one unit to another or from a unit to the basin is rescaled by "
         "the ratio of the areas. A land cover without area emits nothing and keeps its content, and the discharge is the "
         "sum of the fluxes that reach the outlet.",
         ["configurations", "inputs", "histories"],
         "All structures, solvers, layouts and forcing of the generators, every store and flux at every step.",
         "Tests look at final contents or totals of small cases; errors that cancel between stores, or show up only with "
         "partial covers, overflow or simultaneous limits stay invisible.",
         [B + "Processor.cpp", FL + "FluxToBrick.cpp", FL + "Flux.cpp", C + "WaterContainer.cpp", B + "SolverSequential.cpp"],
         [("UpdateFlux/GetAmount", FL + "Flux.cpp"), ("ApplyConstraints/Finalize", C + "WaterContainer.cpp"),
          ("ApplyChange", PR + "Process.cpp")],
         ["contents of all stores after each step", "amount of every flux"],
         "MC_Ledger explores emissions in any order; every step of random models is validated store by store against "
         "After() of Ledger.tla (TraceLedger, mode store).")
    prop("P03", "Contents stay non-negative, finite and within capacity",
         "No store ever holds a negative or non-finite amount (except stores that may go negative by design), no store "
         "with a capacity holds more than it, and every flux and the discharge are finite and non-negative, whatever the "
         "forcing, parameters and solver.",
         ["configurations", "inputs", "histories"],
         "All structures, solvers, layouts, parameters in their ranges and forcing including droughts and extreme storms.",
         "The limits bind only for particular combinations of fluxes in one step; tests cover a few of them.",
         [C + "WaterContainer.cpp", B + "Processor.cpp", B + "SolverSequential.cpp", PR + "ProcessOutflowOverflow.cpp"],
         [("ApplyConstraints", C + "WaterContainer.cpp"), ("EnforceConstraints", B + "Processor.cpp")],
         ["contents, capacities and fluxes after each step"],
         "Bounds and Capacity are invariants of MC_Ledger; recorded steps of random models with binding limits are "
         "validated against them (TraceLedger, mode bounds).")
    prop("P04", "Resetting and running again reproduces a run exactly",
         "After a reset, the model is back in its saved initial state - stores, snow and ice, land cover extents, memory "
         "of the processes, pending actions, clock and records - so that a run with the same parameters gives the same "
         "records and totals, whatever ran before. Saving the state makes the current state the one a reset goes back to.",
         ["histories", "configurations"],
         "All sequences of runs, resets, saved states and parameter updates, on all structures, with and without "
         "scheduled actions, and on models built anew from the same settings.",
         "Calibrations reset and rerun a model thousands of times; the tests rerun a few structures once.",
         [B + "ModelHydro.cpp", B + "SubBasin.cpp", BR + "Brick.cpp", BR + "LandCover.cpp", PR + "Process.cpp",
          AC + "ActionsManager.cpp", B + "Logger.cpp"],
         [("Reset/SaveAsInitialState", B + "ModelHydro.cpp"), ("Reset", BR + "LandCover.cpp"),
          ("Reset", PR + "ProcessRoutingGR4J.cpp"), ("Reset", AC + "ActionsManager.cpp")],
         ["logger records and totals of every run", "contents and extents after each reset", "clock"],
         "MC_Lifecycle shows that the names of states (which run from which state with which parameters) are sound for "
         "part-by-part reset; histories generated from it by TLC are replayed on random models and their outcomes "
         "validated against the names (TraceLifecycle).")
    prop("P05", "A spin-up only replaces the initial state of the run",
         "A run with a spin-up of k steps is the run that starts from the state reached after the first k steps of the "
         "period (the whole period at most), with the clock at the start, nothing of the spin-up recorded, no scheduled "
         "action applied or used up by it, and the declared land cover extents.",
         ["configurations", "histories"],
         "All spin-up lengths (shorter, equal and longer than the period), step sizes, structures, with actions, and "
         "with resets and reruns.",
         "The tests compare one spin-up run with one other run; what leaks from the spin-up shows only with actions, "
         "process memory or reruns.",
         [B + "ModelHydro.cpp", B + "TimeMachine.cpp", B + "SubBasin.cpp"],
         [("RunSpinup/RewindAfterSpinup", B + "ModelHydro.cpp")],
         ["records, totals and final state of runs with and without spin-up", "actions called"],
         "The spin-up is part of MC_Lifecycle; models with spin-up, models that end where the spin-up ends, models "
         "initialised from that state and longer periods are run side by side and validated row by row against the names "
         "of the states (TraceLifecycle); the recorded steps continue the books of the warmed-up state (TraceLedger).")
    prop("P08", "Every scheduled action is applied exactly once, when it is due",
         "A dated action is applied once, at the first step boundary not before its date, in the order of the dates; a "
         "recurring action is applied once for each of its days that the run enters, whatever the step size. After a reset "
         "all actions are pending again, and the recorded land cover extents follow the dated changes.",
         ["histories", "configurations", "schedules"],
         "Any number of actions added in any order, dates on and off the steps, before, at and after the start, equal "
         "dates, recurring days (also several, and out of range), step sizes from minutes to weeks, starts at any time of "
         "day, spin-up, and reruns.",
         "Tests schedule one or two actions in daily runs; a date missed or applied twice needs particular step sizes, "
         "interleaved actions or reruns.",
         [AC + "ActionsManager.cpp", AC + "Action.cpp", AC + "ActionLandCoverChange.cpp", B + "TimeMachine.cpp"],
         [("AddAction/DateUpdate", AC + "ActionsManager.cpp"), ("ApplyIfRecursive", AC + "Action.cpp"),
          ("IncrementTime", B + "TimeMachine.cpp")],
         ["applications (date, item) of probe actions", "recorded land cover extents"],
         "MC_Scheduler shows that the sorted queue with a cursor and the day-by-day recurring items apply each item "
         "exactly when due; schedules generated from it and random ones are replayed and the applications validated "
         "against DueAt/RecurringDue on the Gregorian calendar (TraceScheduler).")
    prop("P06", "Land cover extents stay a partition of each hydro unit",
         "The fractions of the land covers of a unit stay within [0, 1] and add up to one, at the declaration, after every "
         "change of extent, in the records and after a reset. A change takes its area from or gives it to the generic cover "
         "alone; a change that cannot be made (unknown cover, fraction out of range or not a number, not enough room) is "
         "refused and leaves everything as it was.",
         ["histories", "inputs", "configurations"],
         "All sequences of possible and impossible changes, up to the exact limits, on units with one to five covers, "
         "direct or scheduled during runs, with spin-up, resets and reruns.",
         "Each change starts from the rounding left by the previous ones; refused changes and limits are rarely tested.",
         [SP + "HydroUnit.cpp", AC + "Action.cpp", AC + "ActionLandCoverChange.cpp", BR + "LandCover.cpp"],
         [("ChangeLandCoverAreaFraction", SP + "HydroUnit.cpp"), ("FixLandCoverFractionsTotal", SP + "HydroUnit.cpp"),
          ("CheckLandCoverAreaFraction", AC + "Action.cpp")],
         ["fractions before and after each change, in records and after resets", "success of each change"],
         "Covers.tla says which changes are possible and what becomes of the fractions; the invariants are checked by TLC "
         "on MC_Covers, and recorded changes on random models are validated against it (TraceCovers, mode extents).")
    prop("P07", "A changing land cover takes along the water and snow on the land",
         "When the extent of a land cover changes, the water, snow and water in the snow lying on the land that changes "
         "hands move with it to the corresponding stores of the receiving cover, so that the volume in the unit is the "
         "same before and after, and no other store changes. Where the receiver has no such store its own water takes the "
         "liquid; ice stays with the glacier.",
         ["histories", "configurations"],
         "All sequences of changes on units whose covers have different stores (snowpack, canopy, glacier ice or none), "
         "including covers that vanish or appear from nothing, direct or scheduled during runs.",
         "Tests move one cover of one structure; losses appear for particular pairs of covers and vanishing covers.",
         [SP + "HydroUnit.cpp", C + "WaterContainer.cpp", BR + "LandCover.cpp"],
         [("TransferLandCoverContent", SP + "HydroUnit.cpp"), ("ChangeLandCoverAreaFraction", SP + "HydroUnit.cpp")],
         ["contents of all stores before and after each change"],
         "Covers.tla gives the contents after a change for each role (own water, snow, water in snow, canopy); TLC checks "
         "the balance on MC_Covers (and that keeping the depth instead breaks it); recorded changes are validated against "
         "it (TraceCovers, mode contents).")
    prop("P09", "Each unit is driven by its forcing value of the date in every step",
         "In every step of every run - after spin-up, resets and exchanged series too - each hydro unit uses the value that "
         "its series has for the date of the step. A series is accepted exactly when it is regular, has the time step of the "
         "model and covers the modelling period for each of its units, and the model refuses to run unless every unit has "
         "data for every variable it needs.",
         ["inputs", "histories", "configurations"],
         "All series by origin (uniform, per unit, arrays, NetCDF in both layouts), period, step from minutes to days, order "
         "of units and extra units, and all histories of offering, attaching, running, resetting and removing series.",
         "Tests use daily series that start with the model and list the units in order; offsets between series, periods "
         "that differ between units, sub-daily dates and exchanged series leave cursors or pointers on the wrong value.",
         [B + "TimeSeries.cpp", B + "TimeSeriesData.cpp", B + "TimeSeriesDistributed.cpp", B + "TimeSeriesUniform.cpp",
          B + "ModelHydro.cpp", B + "Forcing.cpp"],
         [("TimeSeriesDataRegular::SetCursorToDate", B + "TimeSeriesData.cpp"), ("AddTimeSeries", B + "ModelHydro.cpp"),
          ("UpdateForcing", B + "ModelHydro.cpp"), ("TimeSeries::Parse", B + "TimeSeries.cpp"), ("Create", B + "TimeSeries.cpp")],
         ["acceptance of each series", "success of attaching and running", "forcing of each unit and variable in each step"],
         "Forcing.tla defines acceptance and the value at a date; TLC shows on MC_Forcing that cursors positioned at the start "
         "and advanced once per step give that value through spin-up, reruns and exchanged series (and that leaving out the "
         "rewinding or checking one unit only breaks it). Random histories of offers and runs on the real model are "
         "validated against it (TraceForcing).")
    prop("P12", "Evolving glaciers follow their tables and keep their ice",
         "At each scheduled evolution, the extent of a glacier becomes that of the table row for the share of its initial ice "
         "that has been lost - for the whole glacier, or unit by unit - and the volume of ice is the same before and after, "
         "distributed as in the table. Without ice there is no glacier, nothing changes between the evolutions, and a reset "
         "restores the extents and the ice of the table or of the saved state.",
         ["histories", "configurations", "inputs"],
         "All tables (2 to 101 rows, one or more units in any order, units without initial glacier, extents left to the table), "
         "all histories of melt, growth, evolution, saving, resetting and spin-up.",
         "Tests evolve two tables once along a steady retreat; readvance, vanished parts, boundaries between rows and reruns "
         "from saved states are not sampled.",
         [AC + "ActionGlacierEvolutionDeltaH.cpp", AC + "ActionGlacierEvolutionAreaScaling.cpp", BR + "Glacier.cpp", SP + "HydroUnit.cpp"],
         [("ActionGlacierEvolutionDeltaH::Apply, Init", AC + "ActionGlacierEvolutionDeltaH.cpp"),
          ("ActionGlacierEvolutionAreaScaling::Apply, Init", AC + "ActionGlacierEvolutionAreaScaling.cpp")],
         ["extent and ice of the glacier before and after each boundary", "after resets and saves"],
         "Glacier.tla gives the row and the redistribution; TLC shows on MC_Glacier that they keep the ice and stay on the "
         "table through saving and restoring (and that remembering the last row breaks it); recorded evolutions on standing "
         "models and in runs are validated against it (TraceGlacier).")
    prop("P10", "The record of a run holds the values of every step",
         "Each row of the record of a run holds, for every item asked for (all of them on request) and every unit, the value "
         "at the end of the step at that row's date, and no value where the unit lacks the component; the extents of the land "
         "covers are those in force during the step. Each run overwrites the record of the one before, the spin-up leaves no "
         "row, and the totals, the values read per item and the saved file are the record.",
         ["configurations", "histories"],
         "All structures, selections of items (repeated, short names, splitters, unit hydrographs), unit orders, histories of "
         "runs, spin-ups, resets, saved states, scheduled changes and saved files.",
         "Tests compare the discharge and a few stores of standard structures; a row shifted by one step, a value of another "
         "unit or item, or one taken after the changes at the boundary only shows with several units and changing states.",
         [B + "Logger.cpp", B + "ResultWriter.cpp", B + "ModelBuilder.cpp", B + "ModelHydro.cpp", B + "SettingsModel.cpp"],
         [("Logger::Record, InitContainers, Reset", B + "Logger.cpp"), ("ConnectLoggerToValues", B + "ModelBuilder.cpp"),
          ("WriteNetCDF", B + "ResultWriter.cpp"), ("GetHydroUnitLogLabels", B + "SettingsModel.cpp")],
         ["labels and rows of the record", "values and fractions read per item", "saved NetCDF file", "state of every component at the end of each step"],
         "Recorder.tla says what a record holds; TLC shows on MC_Recorder that a buffer with a cursor holds it through spin-up, "
         "boundaries, resets and reruns (and that a cursor not rewound, a row taken after the boundary or during spin-up break "
         "it). The rows and files of random runs are compared with the state of every component observed at the end of each "
         "step (TraceRecorder).")
    prop("P16", "Precipitation is split by temperature and reaches every land cover",
         "At every step the precipitation of a unit is split into rain and snow by the transition of the model (a threshold, a "
         "linear range, or the daily extremes below 1500 m and a fixed range above), times the correction factors, the two "
         "shares adding up to the whole. Every land cover receives the full depth of rain and, where there is snow, of snow, once.",
         ["configurations", "inputs"],
         "All transitions with any limits and factors, temperatures at, between and beyond the limits, elevations around 1500 m, "
         "minima above maxima, any land covers, canopies and snowpacks.",
         "Tests sample a few temperatures for each splitter; an unequal sign at a limit, a wrong elevation, factor or order of "
         "outputs, or a cover left out only shows for particular combinations of forcing, unit and structure.",
         [FL + "Splitter*.cpp", B + "SettingsModel.cpp", B + "ModelBuilder.cpp"],
         [("Splitter*::Compute", FL + "Splitter.cpp"), ("GeneratePrecipitationSplitters, GenerateSnowpacks", B + "SettingsModel.cpp")],
         ["amounts given by the splitters", "forcing of the units", "outputs of the splitters in the built model"],
         "Partition.tla gives the solid share of each transition; TLC checks on a grid of temperatures, limits and elevations "
         "that the shares add up, lie between 0 and 1 and grow with cold (MC_Partition). The amounts of all splitters of random "
         "runs, and the stores they feed, are compared with it (TraceLaws, splitters).")
    prop("P24", "The solvers advance the stores by their numerical schemes",
         "Where no store runs dry or full within a step, the amounts leaving the stores handled by the solver are those of the "
         "chosen scheme (explicit Euler, Heun, Runge-Kutta 4, exact linear, implicit Euler, Crank-Nicolson, exponential Euler) "
         "applied to the process laws, for any length of step, including what enters during the step. With explicit Euler a "
         "demand is only reduced when its store runs dry, in proportion, or the receiving store is full.",
         ["configurations", "histories"],
         "All seven schemes and their synonyms on chains, networks and standard structures with nonlinear laws, exchanges "
         "between units and basin, static and instantaneous inflows, steps of 1 hour to 3 days, any initial contents.",
         "Tests run the schemes on single linear stores with known curves; a wrong stage, weight or inflow of one scheme for "
         "coupled, nonlinear or partly covered stores stays within their tolerances or outside their cases.",
         [B + "Solver*.cpp", B + "Processor.cpp", C + "WaterContainer.cpp"],
         [("Solve, ComputeBrickRates", B + "Solver.cpp"), ("EvaluateRates, ConstrainRates, ApplyRates", B + "Processor.cpp")],
         ["amounts of every flux and contents of every store at each step", "settings and topology of the model"],
         "Schemes.tla defines the schemes; TLC compares them on a grid of stores (order of accuracy, steady state, stability, "
         "exact composition: MC_Schemes). TraceLaws computes, from the recorded contents, the stages of the scheme for the whole "
         "network with the laws of Laws.tla and compares the amounts of each step of random runs.")
    prop("P25", "Every process moves what its documented law gives",
         "At every step the amount moved by a process is the one its law gives for the content of its store, its parameters, the "
         "forcing and properties of its unit, never more than what the store holds when it is computed: melt, refreezing, "
         "sublimation, snow to ice, evapotranspiration, infiltration, runoff, percolation, capillary rise, outflows, the GR "
         "production and interception. An empty store gives nothing, a full store overflows by its excess, and a land cover "
         "without area gives nothing.",
         ["configurations", "inputs", "histories"],
         "All process types in all structures and networks, any parameters, contents, extents (also changing), aspects, slopes, "
         "days of the year and forcing; directly computed stores with any solver, the others with explicit Euler.",
         "Tests compare some processes on a few days of constant forcing; a law that is wrong beyond a threshold, for one "
         "aspect or hemisphere, with sub-daily steps or in combination with another process is not sampled.",
         [PR + "Process*.cpp", B + "Processor.cpp", C + "WaterContainer.cpp", C + "IceContainer.cpp"],
         [("GetRates of each process", PR + "Process.cpp"), ("ApplyDirectChanges", B + "Processor.cpp"),
          ("ApplyConstraints", C + "WaterContainer.cpp")],
         ["amounts of every flux and contents of every store at each step", "forcing and properties of the units"],
         "Laws.tla gives the rate of every process type; TLC checks on a grid what the laws guarantee (signs, gates, demand, "
         "monotonicity, no overfilling, the GR4J production: MC_Laws). For every step of random runs TraceLaws recomputes the "
         "content each process finds, its law, and compares the amounts.",)
    prop("P13", "Snow is redistributed between units as its law says",
         "A snowpack gives away only what exceeds what its slope (or its holding capacity and the density of its snow) can keep, "
         "at most 1000 mm a day, split by the shares of its connections and the cover fractions of the receiving snowpacks, and "
         "brought to their areas. A pack overloaded beyond 1.5 times the maximum depth receives nothing, one without extent "
         "neither gives nor receives, and a tracked density settles and mixes once a step with the fresh snow.",
         ["configurations", "inputs", "histories"],
         "The three redistribution processes with any parameters, slopes, connections (branching, any order of units), several "
         "covers with and without glaciers left out, changing extents, steps of 1 hour to 3 days, snow from none to overload.",
         "Tests slide snow between two units with one cover; a wrong share with several receivers or covers, a density advanced "
         "twice or not reset, or a wrong limit needs particular units, extents and histories.",
         [PR + "ProcessLateral*.cpp", B + "ModelBuilder.cpp", BR + "Snowpack.cpp"],
         [("GetRates, AvoidUnrealisticAccumulation", PR + "ProcessLateralSnowSlide.cpp"),
          ("GetRates, Finalize", PR + "ProcessLateralSnowRedistributionFrey.cpp")],
         ["amounts of the lateral fluxes", "snow contents", "extents, slopes and connections"],
         "Lateral.tla defines the laws; TLC explores all falls of snow on a branching slope of four units: volume kept, nothing "
         "uphill, the held depth stays, density within bounds (MC_Lateral). Every lateral amount of random runs is compared "
         "with the laws evaluated on the recorded contents and the density followed by the specification (TraceLaws, lateral).")
    prop("P17", "Each unit is built from the structure variant that fits its land covers",
         "In a model with several variants of its structure, every unit is built from the variant whose land covers are exactly "
         "those present in the unit or, when there is none, from a smallest variant that has them all; a model with a unit that no "
         "variant can serve is refused. The unit then has the stores, splitters and parameters of its variant, runs exactly as if "
         "that variant were the only structure, and its variant is written to the saved file.",
         ["configurations", "inputs", "histories"],
         "Any number, order and overlap of variants, any land covers of the units (declared or absent, with or without extent), "
         "with parameter changes in all the variants, spin-up, changing extents, resets and repeated runs.",
         "Tests build two variants and two units; a wrong choice among supersets, an order dependence, or a component linked to "
         "the store of another variant needs particular sets of covers.",
         [B + "ModelBuilder.cpp", B + "SettingsModel.cpp"],
         [("AssignHydroUnitStructures, CreateHydroUnitsComponents", B + "ModelBuilder.cpp"),
          ("SelectStructure, SetParameterValue", B + "SettingsModel.cpp")],
         ["variant, stores and splitters of each unit", "contents and amounts at every step", "saved file"],
         "Structures.tla defines the fitting variants; TLC checks the search over every list of variants and every unit, and that "
         "the choice keeps all covers, is as tight as possible and does not depend on the order (MC_Structures). Random models "
         "with variants are built by the real code, and every step of every unit is compared with a model made of its variant "
         "alone (TraceStructures).")
    prop("P14", "Routed water leaves on the schedule of its unit hydrograph",
         "The water that reaches a routing store leaves it in the shares of the unit hydrograph (the triangle of the HBV models, "
         "in days whatever the time step; the two S-curves of GR4J and GR6J followed by their routing and exponential stores, the "
         "exchange and the direct branch). What is in transit is exactly what has come and not left, it is recorded as such, and "
         "what could not leave in time leaves next. The exchange enters the water held once per step with every solver, and resets, "
         "saved states and changed parameters act on the water in transit as on any store.",
         ["inputs", "histories", "configurations"],
         "Any inflow history, number of units, solver, time step (HBV), hydrograph base, routing parameters and exchange, routing "
         "in the units or the basin, repeated runs with saved states and parameter changes.",
         "Tests route a few days in one unit with a daily step; an error in another unit count, step, solver or run is out of "
         "their reach, and the balance of the basin can hold although the timing is wrong.",
         [PR + "ProcessRoutingGR4J.cpp", PR + "ProcessRoutingGR6J.cpp", PR + "ProcessRoutingHBV.cpp"],
         [("GetRates, Finalize, _recomputeUH", PR + "ProcessRoutingGR4J.cpp"), ("GetRates, Finalize", PR + "ProcessRoutingGR6J.cpp"),
          ("GetRates, Finalize", PR + "ProcessRoutingHBV.cpp")],
         ["discharge of each routing store", "recorded storage and inner discharges", "content of the store"],
         "Routing.tla specifies the hydrographs, the schedule and the routing stores; TLC checks that the schedule is the "
         "convolution, loses nothing with late deliveries or changing bases (MC_Hydrograph) and that the GR routing closes its "
         "balance with the exchange for every sequence of days (MC_Routing). Random models with several runs of the real code are "
         "checked step by step against it (TraceRouting).")
    prop("P18", "A parameter set for components is the one every unit runs with",
         "A value given to a parameter of a component, a list of components, a type of components or all land covers reaches "
         "exactly those, in every variant of the structure and in the sub-basin; after the update, runs give what a model declared "
         "with these values gives, whatever ran before. A request with an unknown component, or one without the parameter, is "
         "refused and changes nothing.",
         ["inputs", "histories", "configurations"],
         "Any structure and variants, any requests (names, lists, types; existing or not) before the model is made and between any "
         "runs and resets, any values.",
         "Tests set a few parameters once; a value kept from an earlier run, missed in one variant or set half-way is only seen by "
         "comparing with a model made afresh.",
         [B + "SettingsModel.cpp", B + "ModelBuilder.cpp", B + "ModelHydro.cpp"],
         [("SetParameterValue", B + "SettingsModel.cpp"), ("UpdateHydroUnitsParameters, UpdateSubBasinParameters", B + "ModelBuilder.cpp"),
          ("SetParameters", PR + "Process.cpp")],
         ["parameters in the settings after each request", "records of the runs"],
         "Parameters.tla specifies which parameters a request addresses and when it is granted; TLC checks a program that works "
         "item by item and variant by variant against it for all sequences of requests, updates and runs (MC_Parameters). Random "
         "requests to real models are checked against it, and every run bit by bit against a model declared with the values "
         "(TraceParameters).")
