#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, na=na))


VG = "value-graph refinement against a reference body"
NOTE = ("Every function on the path is summarised symbolically (helpers inlined, loops summarised, guards normalised) and compared "
        "with the required behaviour for all inputs; a construct the analysis does not understand is reported as undecided, never "
        "as a violation. Trusts NumPy/pymatgen/h5py semantics and ignores floating-point rounding.")
SIM = "kmcpy/simulator/"

prop("P01", "A seeded run is a pure function of its inputs",
     "Two runs from the same configuration, initial state and integer random seed produce identical trajectories, times and sampled "
     "properties, in one process or in different ones. Every random number of a run comes from that run's own seeded generator, and "
     "nothing a run computes depends on process-wide state, hashing order, the clock or the environment.",
     ["inputs", "configurations", "histories"], "every configuration, seed, state and call history of the process",
     "A test compares two runs of one configuration in one process; a stray global generator, unordered iteration or shared mutable "
     "default shows only under other hash seeds, histories or branches.",
     [SIM + "kmc.py", SIM + "tracker.py", SIM + "property.py", "kmcpy/event/base.py", "kmcpy/event/dependencies.py"],
     [("generator", "KMC.__init__/propose"), ("no ambient nondeterminism", "every function reachable from a run")],
     "effect and provenance analysis over the resolved call graph (nondeterminism sources, hidden state)",
     "Call graph is name-resolved and over-approximated for methods; sources of nondeterminism come from an explicit list of library calls.")
prop("P02", "Each step draws the next event by its rate and an exponential waiting time",
     "At every step the probability of choosing an event is its current rate divided by the total current rate, so an event with zero "
     "rate is never chosen. The time advance of the step is an exponential waiting time with the total rate, drawn independently of "
     "the choice, and the event applied is the one drawn.",
     ["inputs", "histories"], "every rate table with a positive total, every pair of random draws, every step of every run",
     "Tests sample a handful of seeds; a wrong side, normalisation or reused draw biases the statistics without changing any tested value visibly.",
     [SIM + "kmc.py"], [("rejection-free selection", "KMC.propose, _propose"), ("step loop", "KMC.run")], VG, NOTE)
prop("P03", "Event rates always describe the current state",
     "Whenever an event is drawn, the rate of every event in the library equals what the rate model gives for the occupation at that "
     "moment, and the cumulative table used for drawing is the running sum of exactly those rates. This holds from the first step on "
     "and after every accepted event.",
     ["histories", "inputs"], "every sequence of accepted events from every initial occupation",
     "Tests check rates after a few hops; staleness appears only for specific event sequences and dependency patterns.",
     [SIM + "kmc.py", SIM + "state.py", "kmcpy/event/base.py"],
     [("initial table", "KMC.initialize_probabilities"), ("incremental refresh", "KMC.update"), ("sole writers", "prob_list/prob_cum_list stores")],
     VG + " plus who-may-write effect analysis", NOTE)
prop("P04", "Every event whose rate a hop can change is recomputed after it",
     "The dependency information of an event library lists, for each event, every event whose rate can differ after it is executed: any "
     "event whose mobile or environment sites include one of the two exchanged sites. The lists refer to events by their position in the "
     "library, and lookup returns exactly the list of the executed event, as a copy the caller may change.",
     ["inputs"], "every event library, whatever its order and overlaps",
     "Tests use one small library in which most events already overlap.",
     ["kmcpy/event/base.py", SIM + "kmc.py"],
     [("dependency construction", "EventLib.generate_event_dependencies"), ("site index", "EventLib lookup tables")], VG, NOTE)
prop("P05", "Hops conserve species; only accepted events change the state",
     "Applying an event exchanges the species of its two end sites and changes no other site, so the number of each species is conserved "
     "and the same event applied twice restores the state. During a run the occupation changes only through accepted events, and invalid "
     "occupation values are refused.",
     ["histories", "inputs"], "every state, event and sequence of accepted events",
     "Tests apply a few hops; a write through an alias or an extra site write shows only for other histories.",
     [SIM + "state.py", SIM + "kmc.py"], [("state update", "State.apply_event"), ("writers of occupations", "whole package")],
     VG + " plus who-may-write effect analysis", NOTE)
prop("P06", "Trajectory bookkeeping follows each ion exactly",
     "For every mobile ion the reported displacement is the sum of the minimum-image hop vectors of the hops that ion made and the hop "
     "counter is their number, with the ion's current site always known. Simulation time is the sum of the waiting times of the accepted "
     "events.",
     ["histories", "inputs"], "every structure, initial occupation and accepted event sequence",
     "Tests inspect short deterministic walks; mixing up direction, ion identity or the periodic image needs particular sequences.",
     [SIM + "tracker.py", SIM + "state.py"], [("tracker update", "Tracker.update"), ("initial bookkeeping", "Tracker.__init__/initialize")], VG, NOTE)
prop("P07", "Production counts exactly the requested passes; equilibration leaves no trace",
     "A run performs the requested number of equilibration passes and then the requested number of production passes, each pass being one "
     "attempt per mobile-ion site of the structure. Equilibration advances the state but contributes nothing to displacements, hop counts or sampled properties.",
     ["configurations", "inputs"], "every pass count, ion count and configuration",
     "Tests use one or two tiny pass counts.",
     [SIM + "kmc.py"], [("run loop", "KMC.run")], VG, NOTE)
prop("P08", "An infeasible hop has rate zero",
     "An event has a non-zero rate only if, in the current occupation, one of its two end sites holds the mobile ion and the other a "
     "vacancy, each judged by that site's own species codes. For every other occupation every rate model gives exactly zero, so such an "
     "event can never be drawn.",
     ["inputs", "histories"], "every occupation, event, species table and rate model",
     "Tests evaluate a few feasible and infeasible occupations with one code table.",
     ["kmcpy/event/hop.py", "kmcpy/models/", SIM + "kmc.py"],
     [("hop direction", "event_direction, HopStateLookup"), ("rate models", "compute_probability")], VG, NOTE)
prop("P09", "Rates follow the Arrhenius law of the current barrier",
     "The rate of a feasible event is attempt frequency times exp(-E/(kB T)) with kB in meV/K, where E is the model's barrier for the "
     "current state: the kinetically resolved barrier plus half the energy change of the hop in its actual direction for a composite "
     "model, and the evaluated barrier property for a local-barrier model.",
     ["inputs", "configurations"], "every state, event, direction, temperature and attempt frequency",
     "Tests compare a few rates; sign of the energy change, direction and units are wrong only for particular states.",
     ["kmcpy/models/composite_lce_model.py", "kmcpy/models/local_barrier_model.py"],
     [("composite rate", "CompositeLCEModel.compute_probability"), ("barrier rate", "LocalBarrierModel.compute_probability")], VG, NOTE)
prop("P11", "Transport numbers follow their definitions and units",
     "Mean squared displacement, jump and tracer diffusivity, conductivity, Haven ratio and correlation factor equal their textbook "
     "definitions applied to the recorded trajectory, in the documented units, and are not-a-number when undefined or disabled. Each "
     "sample uses the trajectory, elapsed time and parameters of the run it belongs to, and is stored under its own name.",
     ["inputs", "histories"], "every trajectory, temperature, charge, dimension, volume and enabled set",
     "Tests compare a few fixed trajectories with recorded numbers; other dimensions, charges or disabled sets are not sampled.",
     [SIM + "property.py", SIM + "tracker.py", "kmcpy/units.py"],
     [("formulas", "compute_transport_properties"), ("wiring", "Tracker.sample_properties")], VG, NOTE)
prop("P12", "Sampling happens exactly when a schedule is due",
     "Built-in summaries and every attached property callback are evaluated at exactly those steps at which their step interval divides "
     "the (positive) step number or their time interval has elapsed since they last fired, a callback's own interval replacing the global one of the same kind. "
     "Firing one of them never shifts the schedule of another.",
     ["histories", "configurations"], "every schedule combination and sequence of step times",
     "Tests use one or two intervals and few steps.",
     [SIM + "tracker.py", SIM + "property.py"], [("trigger rule", "should_trigger"), ("sampling", "Tracker.sample_properties")], VG, NOTE)
prop("P13", "Callback failures stop the run unless handled; records keep the newest",
     "An exception raised by an attached property callback stops the run with an error, unless the error handler it was attached with "
     "asks to continue, in which case only that one sample is lost. Stored samples of a callback carry step, time and value in order of sampling, and a record "
     "limit drops the oldest ones first; records handed out are copies.",
     ["fault_sequences", "histories"], "every callback failure pattern, policy and record limit",
     "Tests raise from one callback once.",
     [SIM + "tracker.py", SIM + "property.py"], [("callback sampling", "Tracker._sample_callbacks"), ("records", "Tracker property records")], VG, NOTE)
prop("P14", "Property requests apply to the current and later runs, each run starting fresh",
     "Attaching, detaching, enabling, disabling or rescheduling a property before a run, between runs or from a callback during a run "
     "takes effect from then on, in that run and in later ones. Every run starts with fresh records and schedules from the settings in "
     "force, and requests naming an unknown property or an invalid schedule are refused without changing anything. "
     "Settings handed out are copies.",
     ["histories", "configurations"], "every sequence of property requests before, during and between runs",
     "Tests attach one or two properties before a single run.",
     [SIM + "kmc.py", SIM + "property.py", SIM + "tracker.py"],
     [("property plan", "PropertyPlan"), ("live tracker", "Tracker.attach/detach/apply_property_plan"), ("user interface", "KMC.attach, detach, set_property_*")], VG, NOTE)
prop("P15", "Result files hold exactly what was computed",
     "The files a run writes contain the trajectory arrays, transport summaries with their units and stored property records exactly as "
     "the run computed them, under the names of the label they belong to. Record values keep their structure: containers stay containers, "
     "plain values stay as they are, and anything else is written in its JSON or printed form.",
     ["inputs", "histories"], "every trajectory, label, result table and property record",
     "Tests read back one or two written files.",
     [SIM + "results.py", SIM + "tracker.py"],
     [("writers", "write_tracker_results and helpers"), ("record access", "Tracker.get_property_records, result_units")], VG, NOTE)
prop("P16", "Bad configurations are refused, never ignored",
     "Building a configuration with an unknown parameter name, a missing required part, or a value outside its documented range or type "
     "raises an error naming the problem; nothing given by the user is silently dropped or replaced. Every parameter is routed to the "
     "part (system or runtime) it belongs to.",
     ["inputs", "configurations"], "every combination of parameter names and values",
     "Tests try one bad value for some of the parameters.",
     [SIM + "config.py", SIM + "property.py"],
     [("routing", "Configuration.__init__"), ("validation", "SystemConfig/RuntimeConfig.__post_init__"), ("schedules", "validate_schedule")], VG, NOTE)
prop("P17", "Configurations are immutable and survive the round trip through files",
     "A configuration never changes after construction: changing a parameter gives a new configuration that differs in exactly the named "
     "parameters. Saving it and loading it again gives the same parameters in every supported format and layout, and saving into an "
     "existing workflow file leaves its other sections intact.",
     ["inputs", "histories"], "every configuration, file format, section layout and existing file content",
     "Tests round-trip a few configurations.",
     [SIM + "config.py"],
     [("immutability", "frozen dataclasses"), ("records", "as_dict, as_record_dict, as_input_dict"), ("files", "Configuration.from_file, to")], VG, NOTE)
prop("P18", "State, event and event-library files restore what was saved",
     "Saving a simulation state, a checkpoint, an event, an event library or an active-site order and loading it again gives back the "
     "same occupations, time, step, sites, dependency lists and index metadata, in every supported file format. Loaded objects own "
     "their data, and files without the required metadata are refused.",
     ["inputs", "histories"], "every state, event and library content, and both file formats",
     "Tests round-trip one or two small objects.",
     [SIM + "state.py", "kmcpy/event/base.py", "kmcpy/structure/active_site_order.py"],
     [("state", "State.as_dict/from_dict/save_checkpoint/load_checkpoint"), ("events", "Event, EventLib as_dict/from_dict/to"),
      ("site order", "ActiveSiteOrder.as_dict/from_dict")], VG, NOTE)
prop("P19", "Saved models and fitted parameters come back unchanged",
     "A model, a fitted parameter set or a parameter history written to a file and loaded again evaluates exactly as before: every "
     "coefficient, orbit, cluster, site order, basis, mapping, rule and default keeps its value, order and name, in JSON and in HDF5, "
     "also for more than ten records. A file of another type, or one whose parts do not fit together, is refused.",
     ["inputs", "configurations"], "every model, parameter set, history and supported file format",
     "Tests round-trip one or two models with a few records; a dropped optional field, a lost order or a lossy conversion needs others.",
     ["kmcpy/models/parameters.py", "kmcpy/models/composite_lce_model.py", "kmcpy/models/site_energy.py",
      "kmcpy/models/local_barrier_model.py", "kmcpy/models/local_cluster_expansion.py", "kmcpy/models/base.py",
      "kmcpy/structure/basis.py", "kmcpy/structure/cluster.py", "kmcpy/structure/local_site_order.py"],
     [("parameter records", "LCEModelParameters/LCEModelParamHistory as_dict, from_dict, to, from_file"),
      ("model files", "as_dict/from_dict/from_file of every model class"),
      ("parts", "Cluster, Orbit, basis and site-order serialisation")], VG, NOTE)
prop("P20", "State, events, structure and model share one active-site index space",
     "The occupation vector, the event library, the structure and the model of a run all number sites by the same active-site order; "
     "initial states given in full-structure order are mapped into it. Components with a different site count or fingerprint, or events "
     "whose sites lie outside it, are refused before the run starts.",
     ["inputs", "configurations"], "every structure, supercell, immutable-site choice, initial state and event library",
     "Tests use a few structures whose index spaces often coincide.",
     ["kmcpy/structure/active_site_order.py", SIM + "state.py", SIM + "kmc.py", "kmcpy/event/base.py"],
     [("site order", "ActiveSiteOrder"), ("initial state mapping", "State.from_file"), ("validation", "KMC.from_config, EventLib._validate_event_indices")], VG, NOTE)
prop("P21", "A site-energy model sees the occupation of the current state",
     "An external site-energy evaluator is asked for the energy change of exactly the exchange an event makes in the current state, in "
     "its own site numbering and occupation values, and its answer is used in meV. The occupation it is handed holds, for every active "
     "site, the mapped value of that site's current species without loss; accepted events are committed to it once, and a new run "
     "starts from that run's own initial state. Mappings that are incomplete, ambiguous or out of range are refused.",
     ["inputs", "configurations", "histories"], "every mapping, evaluator, state and sequence of accepted events",
     "Tests use one or two mappings with an integer-valued evaluator; a truncated value, swapped direction, stale cache or ambiguous "
     "mapping needs other mappings or a second run.",
     ["kmcpy/models/site_energy.py"],
     [("hop changes", "SiteEnergyModel._changes_from_pre_state/_mapped_changes"), ("cached occupation", "SiteEnergyModel.apply_event/initialize_state"),
      ("mappings", "_build_site_lookup, _build_state_lookup")], VG, NOTE)
prop("P22", "Local barrier rules mean what they say",
     "A local-barrier model gives an event the barrier of the first rule of its list all of whose conditions hold for the event's sites "
     "in the current state; when none applies it uses the default, and without a default it is an error. Ill-formed rules are refused "
     "when the model is built.",
     ["inputs", "configurations"], "every rule set, state and event",
     "Tests evaluate a handful of rule sets.",
     ["kmcpy/models/local_barrier_model.py"],
     [("rule conditions", "LocalBarrierModel rule matching"), ("combination", "LocalBarrierModel.compute")], VG, NOTE)
prop("P23", "A cluster expansion evaluates exactly the features it was fitted on",
     "The energy a local cluster expansion gives an event is the sum, over its features in order, of coefficient times feature plus the "
     "constant term, where a feature is the sum over the clusters of one orbit of the product of the site basis values, read from the "
     "event's environment sites in the model's site order. Fitting computes the same features. Coefficients fitted for other orbits, "
     "another orbit order or another local environment are refused.",
     ["inputs", "configurations"], "every model, basis, occupation, event and parameter set",
     "Tests evaluate a few bundled models; a wrong site order, sign, basis value or an unchecked mismatch shows only for other models.",
     ["kmcpy/models/local_cluster_expansion.py", "kmcpy/structure/basis.py", "kmcpy/structure/cluster.py",
      "kmcpy/structure/local_site_order.py"],
     [("features", "_calc_corr, _calc_corr_decorated"), ("energy", "LocalClusterExpansion.compute"),
      ("binding of coefficients", "LocalClusterExpansion._validate_parameter_orbits"),
      ("site values", "BasisFunction.state_value/site_basis_values")], VG, NOTE)

prop("P25", "A structure and its occupation describe the same configuration",
     "The occupation read from a structure gives every template site the value of the species sitting there, or the vacancy when no "
     "atom does, in the site order of the (super)cell; the structure built from an occupation is its inverse. An atom off every site, "
     "two atoms on one site, a species its site does not allow or a mismatched cell is refused. Supercell sites keep the label, image "
     "and allowed species of the site they repeat.",
     ["inputs", "configurations"], "every template, mapping, supercell, structure and occupation",
     "Tests convert a few small cells; another site order, supercell, charge state or vacancy label needs other structures.",
     ["kmcpy/structure/lattice_structure.py", "kmcpy/structure/species.py", "kmcpy/structure/active_site_order.py",
      "kmcpy/structure/sites.py"],
     [("reading", "LatticeStructure.get_occ_from_structure"), ("writing", "LatticeStructure.get_structure_from_occ"),
      ("active sites", "ActiveSiteOrder.filter_active_structure"), ("supercells", "make_kmc_supercell, LatticeStructure.make_supercell")],
     VG, NOTE)
prop("P24", "The event library lists exactly the hops the structure offers",
     "Event generation returns, in the supercell's own site numbering, one event for every selected site and every neighbour within the "
     "cutoff of their species pair (whichever way round the pair is given) that the target identifier selects, in every cell and across "
     "the periodic faces. Environments of the same composition list their sites in the order of the first one, matched within the "
     "tolerances given. Identifiers select sites by species or by label as inferred, the vacancy is never the mobile species, an "
     "option given is used (zero included), and a generation without a mapping or without events is refused. Events are saved with "
     "their dependencies and site order.",
     ["inputs", "configurations"], "every template, identifier, cutoff table, tolerance and supercell",
     "Tests generate events for one or two materials; another label, vacancy spelling, cutoff table or small supercell is not tried.",
     ["kmcpy/event/generators.py", "kmcpy/structure/neighbors.py", "kmcpy/structure/local_lattice_structure.py"],
     [("selection", "EventGenerator._normalize_generate_events_inputs, _infer_site_selection_kind"),
      ("events", "EventGenerator.generate_events"), ("references", "EventGenerator._match_or_register_local_environment"),
      ("neighbours", "prepare_cutoff_neighbor_lookup, get_cutoff_neighbor_info")], VG, NOTE)
prop("P26", "Occupation objects hold valid values and conversions keep the configuration",
     "An Occupation holds only values its basis allows: building one, assigning an element or flipping sites either leaves valid values "
     "or raises and leaves the object as it was. Copies, slices and flips never change the original. Converting between bases keeps "
     "which sites hold the template species or is refused, occupied, vacant, matching and mismatching sites are counted and listed as "
     "the basis defines them, equality and equivalence compare configurations, and a basis read back from its dictionary is the same.",
     ["inputs", "histories"], "every basis, number of states, occupation vector and sequence of operations",
     "Tests try the two-state bases on short vectors; more states, failing assignments and aliasing show on other histories.",
     ["kmcpy/structure/basis.py"],
     [("validity", "Occupation._validate, __setitem__"), ("conversion", "Occupation.to_basis, BasisFunction.convert_to"),
      ("comparison", "Occupation.__eq__, equivalent_to")], VG, NOTE)
prop("P28", "Training data keep each structure together with its own value",
     "A data set built from structures and barrier values keeps the n-th value, weight, metadata, occupation and correlation with the "
     "n-th structure; the matrices, property vector and files written for the fit list them in that same order and full precision. Lists "
     "of different length, a missing model, structures whose correlations differ in length and weights that are not one per entry are "
     "refused. A structure file named as input is the one read.",
     ["inputs", "histories"], "every list of structures, values, weights, models and order of additions",
     "Tests build data sets of one or two structures with equal options; order and length mistakes need longer, mixed lists.",
     ["kmcpy/io/neb/data.py"],
     [("entries", "NEBEntry.from_structure, compute_occ_corr"), ("data set", "NEBDataLoader.add, add_structures"),
      ("fit inputs", "NEBDataLoader.write_fitting_inputs")], VG, NOTE)
prop("P30", "Fitted coefficients predict what the fit reported",
     "The coefficients and constant a fit returns, stores and saves are for the features as given: applied to the unscaled features "
     "they reproduce the predictions and error the fit reports, with or without weights and normalisation, also for features that "
     "never vary. The leave-one-out error refits without each sample in turn and predicts exactly that sample. The saved record "
     "carries the orbits and environment the coefficients belong to, earlier records are kept, and reading a fit back gives the latest.",
     ["inputs", "configurations"], "every feature matrix, target, weight and option",
     "Tests fit one small data set; rescaling, weighting, degenerate features or record handling show only on other data.",
     ["kmcpy/models/fitting/fitter.py"],
     [("fit", "LCEFitter._fit_lasso_values"), ("cross validation", "LCEFitter._leave_one_out_rmse"),
      ("records", "LCEFitter.fit, _save_fit_results_history, _extract_serialized_record")], VG, NOTE)

prop("P31", "Enumerated environments and hop endpoints are the ones asked for",
     "Enumerating local environments returns one result for every assignment of the allowed (and requested) species to the variable sites "
     "of the environment that has the species counts asked for, each site once, in order and up to the limit; every result's structure, "
     "occupation, species and label describe the same assignment on top of the base configuration. The two endpoints of a hop have "
     "the mobile ion on the start site and the target site empty, and the reverse; every other site is unchanged and atom k is the same "
     "ion in both. Hops between a site and itself, different mobile species, sites without a vacancy state, or an occupation of another "
     "length are refused.",
     ["inputs", "configurations"], "every lattice model, centre, cutoff, species selection, count, base structure and hop",
     "Tests enumerate one or two environments; small cells with periodic images, third species and limits need other inputs.",
     ["kmcpy/structure/local_environment_enumerator.py"],
     [("environments", "enumerate_local_environments, _resolve_variable_site_indices"),
      ("endpoints", "generate_neb_endpoint_pair, _ordered_endpoint_structures")], VG, NOTE)

prop("P27", "The command line runs exactly the simulation its options describe",
     "run_kmc given an input file runs the configuration of that file and nothing else; without one it builds the configuration from exactly "
     "the options given: every option that has a value is handed over unchanged, with the documented types and defaults (attempt frequency "
     "1e13 Hz, 300 K, no primitive-cell conversion), supercell shapes and site mappings mean what they spell, and texts that are not three "
     "integers, a sequence or a mapping are refused rather than altered. The parsed configuration is run once. The template command writes "
     "the template where asked and replaces an existing file only when forced.",
     ["inputs"], "every command line, option text and input file",
     "Tests sample a few option strings; a dropped or rounded option still runs a simulation and reports plausible numbers.",
     ["kmcpy/cli/run_kmc.py", "kmcpy/cli/init.py", "kmcpy/cli/main.py"],
     [("options", "main, build_parser"), ("parsing", "_parse_sequence, _parse_supercell_shape, _parse_mapping"), ("run", "run_kmc"),
      ("template", "write_template")], VG, NOTE)

prop("P29", "Matching a cluster to a reference finds a true correspondence of sites",
     "Two clusters are compared only if they have the same sites by species and role with the same multiplicity; otherwise the match is "
     "refused. A match maps every reference site to a different candidate site of the same species and role such that all pair distances "
     "agree within the tolerances, the search misses no such mapping, the returned permutation and its inverse belong together, and an "
     "ambiguous match is refused when uniqueness is asked for. Where no exact mapping exists the match is refused, or, when asked for, the "
     "species- and role-preserving mapping with the smallest distance deviation is returned together with that deviation. A local environment read "
     "from a neighbour list keeps sites, species and distances together.",
     ["inputs", "configurations"], "every reference and candidate cluster, tolerance and option",
     "Tests match a handful of small clusters; a search that prunes or forgets a branch shows only on other symmetric clusters.",
     ["kmcpy/structure/cluster.py", "kmcpy/structure/local_lattice_structure.py"],
     [("match", "ClusterMatcher.match, _build_match"), ("search", "ClusterMatcher._matching_permutations, _is_partial_distance_match"),
      ("nearest", "ClusterMatcher._nearest_permutation"), ("clusters", "Cluster.from_*, signature; LocalLatticeStructure")], VG, NOTE)

prop("P40", "Reported transport coefficients converge to those of the model",
     "With growing simulation length and number of passes, the reported diffusivities, conductivity, correlation factor and Haven ratio "
     "converge to the values of the continuous-time Markov chain that the event library and the rate model define.",
     ["histories", "inputs"], "every model, temperature and seed, in the limit of long runs",
     "A test can only run a finite trajectory with a few seeds.",
     [SIM + "kmc.py", SIM + "property.py"], [("estimators", "compute_transport_properties"), ("sampling", "KMC.run")],
     na="a statement about a limit in probability over random trajectories; no source analysis in reach bounds it. Its deterministic "
        "ingredients (selection rule, rates, bookkeeping, formulas) are claimed as P02, P03, P06, P09 and P11.")
prop("P41", "Long runs do not lose numerical accuracy",
     "Over arbitrarily many steps the clock, the cumulative rates and the displacements stay within a small relative error of their exact "
     "values, whatever the spread of the rates.",
     ["histories", "inputs"], "every sequence of steps and rate table", "Rounding errors accumulate only in runs far longer than a test.",
     [SIM + "kmc.py", SIM + "tracker.py"], [("accumulation", "KMC.update, Tracker.update")],
     na="bounds floating-point error accumulated over an unbounded number of data-dependent steps; the analysis treats numbers as reals.")
prop("P42", "A simulation step costs time proportional to the events it affects",
     "The time of a step depends on the number of dependent events and on one pass over the rate table, not on the length of the history, "
     "and memory stays bounded when record limits are set.",
     ["histories", "inputs"], "every library size and run length", "Tests run small libraries for few steps.",
     [SIM + "kmc.py", SIM + "tracker.py"], [("step", "KMC.update"), ("records", "Tracker")],
     na="a resource bound of interpreted code and of library calls whose cost is not visible in the source.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '/verif'); import kstat.interp, kstat.compare\"",
           "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            man["checks"].append({
                "property": p["id"], "quick_cmd": f"python3 /verif/check.py {p['id']}",
                "thorough_cmd": f"python3 /verif/check.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "other",
                "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
