#!/usr/bin/env python3
"""Single source for properties.jsonl (run by hand after editing; not part of any check)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state),
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
LAY, CIR, NOI, TRK = "src/honeycomb_layout.py", "src/honeycomb_circuit.py", "src/noise.py", "src/measure_tracker.py"
DEC, COL, PRO, PLO = "src/decoding.py", "src/collect_data.py", "src/probability_util.py", "src/plotting.py"
DIA, AGG, ALL = "src/circuit_diagrams.py", "src/paper/aggregate_csv_data.py", "src/paper/main_collect_all.py"
LAM = "src/paper/main_render_lambda_figure.py"
CONF = "every even data width >= 2, data height a positive multiple of 6, sub-round count >= 1 (a multiple of 3 for SI1000), each of the five styles and both observables"

prop("C01", "Noiseless runs never fire a detector or flip the logical observable",
 "For every supported layout, sub-round count, style and observable, the generated memory-experiment circuit at zero noise annotates only deterministic parities: in every noiseless run all detectors are silent and the tracked logical observable is unflipped. The same holds for the ideal part of a noisy circuit, so a full (decomposed) error model can always be extracted from it.",
 ["configurations"], CONF,
 "Tests extract an error model for sizes up to 8x30 and at most 23 sub-rounds (never EM3_v2); larger, elongated and long (loop-folded) experiments are only pinned at one size per style.",
 [CIR, LAY, TRK], [("fault tolerant init / rounds / measurement", CIR), ("dummy and obstacle records", TRK)],
 ["stim.Circuit returned by generate_honeycomb_circuit"])
prop("C02", "Every circuit style performs exactly the honeycomb measurement schedule",
 "For every supported configuration, the ideal part of the generated circuit prepares all data qubits in the observable's starting basis, measures in sub-round k the XX, YY or ZZ parity (k mod 3) of every edge of that type and nothing else, and finally reads out all data qubits in the observable's current basis. All styles (ancilla based, controlled-Pauli, pipelined, or direct parity measurements, with or without folded loops) therefore give the same joint distribution of edge and data outcomes.",
 ["configurations"], CONF,
 "Tests pin circuit text for one or two tiny layouts per style; nothing relates the styles to each other or to the ideal schedule for other sizes or sub-round counts.",
 [CIR, LAY], [("per-style round generators, pipelining, loop folding", CIR)], ["measurement records of the generated circuit"])
prop("C03", "Detectors are exactly the hexagon comparisons the schedule allows",
 "For every supported configuration, each hexagon yields exactly one detector each time its value is (re)measured and was previously known, comparing the two consecutive values; the only others are the edges known from the initial state and those re-measured by the final readout. No detector is missing, duplicated or composed of other records, and each carries its hexagon or edge centre and the sub-round index as coordinates.",
 ["configurations"], CONF,
 "A missing or mis-built detector leaves a valid error model, so the decomposition tests still pass; the text tests pin only 2x6-sized layouts and one sub-round count per style.",
 [CIR, TRK, LAY], [("half/full hexagon groups", CIR), ("append_detector", TRK)], ["DETECTOR annotations, detector coordinates"])
prop("C04", "The tracked observable is the logical path operator carried through all rounds",
 "For every supported configuration, exactly one observable is annotated (index 0 for vertical, 1 for horizontal) and it is the parity of every edge outcome measured along the chosen path during the experiment together with the final readout of the qubits supporting the path's current logical operator.",
 ["configurations"], CONF,
 "Which records enter the observable is pinned by text for a handful of circuits; a wrong but deterministic observable passes the decomposition tests.",
 [CIR, LAY], [("observable accumulation", CIR), ("observable patterns by sub-round", LAY)], ["OBSERVABLE_INCLUDE annotations"])
prop("C05", "Logical distance against data errors is 2h/3 (H) and w (V), as reported",
 "For every supported layout and sub-round count, the fewest single-qubit data errors occurring between sub-rounds that flip the tracked observable without firing any detector is exactly 2/3 of the data height for the horizontal observable and exactly the data width for the vertical one. The code distance reported with the layout's results is the smaller of the two.",
 ["configurations"], CONF,
 "No test computes a distance; the reported code distance is checked for two sizes.",
 [LAY, CIR], [("code_distance_1qdep", LAY), ("torus layout and detectors", CIR)], ["shortest undetectable logical error", "reported code distance"])
prop("C06", "Faults below the fault distance are detected and single faults corrected",
 "For every supported configuration under its own noise model, no set of fewer than h/2 (horizontal) or w (vertical) matchable fault components (at most two symptoms each; larger faults count as the components they decompose into) flips the observable undetected for the ancilla based styles, and fewer than h/3 or w/2 for the entangling-measurement styles. On layouts of at least 6x12, decoding corrects any single fault of the noise model anywhere in the circuit.",
 ["configurations", "fault_sequences"], CONF + "; every gate, idle, reset and measurement location and Pauli type",
 "The decoding tests only check that decoding runs; the two-logical-qubit test checks one error rate on one layout.",
 [CIR, NOI, DEC, LAY], [("interleaving order of two-qubit gates", CIR), ("matching", DEC)], ["graphlike error search", "decoded predictions"])
prop("C07", "Circuits are executable: one gate per qubit per layer, native gates, fixed depth",
 "In every generated circuit the ideal part (apart from the helper qubit of correlated measurement noise) never uses a qubit twice between consecutive ticks, uses only the style's gate set, and acts only on qubits that were given distinct coordinates, whose number is the qubit count reported for the layout. Each 3-sub-round cycle takes exactly 6 layers in SD6, 3 in PC3 and in both EM3 styles, and 10 in SI1000 (including its reset layer), independent of size.",
 ["configurations"], CONF,
 "The in-code assertion is commented out; tests check the qubit count for four layouts and text for a few circuits.",
 [CIR, LAY, NOI], [("two-colouring of data qubits", LAY), ("pipeline steps", CIR)], ["layers of the generated circuit"])
prop("C08", "Noise models insert exactly the specified channels at the specified strengths",
 "For any input circuit whose layers use each qubit at most once (with nested loops, annotations and any grouping of operations) a noise model adds to each layer exactly its specified channels: gate depolarization after each noisy gate, flips after resets and before measurements in the conjugate basis, parity-measurement noise, idle depolarization on every unused qubit of a layer in which something happens, and extra idling on qubits not measured or reset during layers that measure or reset single qubits. Strengths follow the five published models as functions of p, zero-strength channels are omitted, and gates outside the model, or parity measurements it has no noise for (already noisy, or not of two factors), are rejected.",
 ["programs", "inputs"], "every circuit over the supported gate set, every error strength, the five named models and custom models",
 "Tests compare about ten hand-written circuits of at most four moments.",
 [NOI], [("noisy_circuit / noisy_op", NOI), ("named models", NOI)], ["NoiseModel.noisy_circuit output"])
prop("C09", "Adding noise never changes the ideal circuit",
 "For any supported circuit, removing the noise channels from the noisy circuit gives back the same operations on the same qubits in the same order with the same measurement records, detectors, observables, coordinates and loop counts (a loop run once, or nested directly in another, may be merged); at strength zero the output equals the input. When a parity measurement is expanded to carry correlated noise, the helper qubit is not a qubit of the circuit and the measurement record, position and meaning are unchanged.",
 ["programs"], "every circuit over the supported gate set including nested loops, subsets of idling qubits, every model",
 "Only a handful of straight-line circuits are compared; a loop body that touches fewer qubits than the circuit is never tried.",
 [NOI], [("noisy_circuit recursion, ancilla choice", NOI)], ["NoiseModel.noisy_circuit output"])
prop("C10", "Correlated parity-measurement noise is exactly the uniform mixing channel",
 "With mixing probability p, a noisy two-qubit parity measurement applies each of the 32 combinations of a Pauli on the two qubits and an optional flip of the reported result with probability p/32 (the identity additionally with 1-p), for every p in [0,1], every pair of bases and any qubits. The conversion from a mixing probability over n bits to the probability of independently applied components is exact for every n.",
 ["inputs"], "every p in [0,1], n from 1 up, all 9 basis pairs, all qubit labels",
 "One value of p and n is checked; the noise circuit's own distribution is never checked.",
 [NOI], [("independent component conversion", NOI), ("parity_measurement_with_correlated_measurement_noise", NOI)], ["generated CORRELATED_ERROR instructions"])
prop("C11", "The layout is a 3-coloured honeycomb torus with consistent indexing",
 "For every supported size the layout is a honeycomb on a torus: every data qubit lies on exactly one edge of each type, every hexagon has six distinct data qubits and six edges (three of each of the two types other than its own), edges of type r join hexagons of type r, and each pair of adjacent hexagons have different types. Qubit, edge, hexagon and index listings are complete, duplicate free, sorted, mutually consistent and periodic, and unsupported sizes are rejected.",
 ["configurations"], "every data width and height, every position on or off the torus",
 "Tests list the geometry of the 2x6 layout and a few counts of larger ones.",
 [LAY], [("hex categories, edge types, wrap", LAY)], ["HoneycombLayout public attributes"])
prop("C12", "The layout's H and V operators are two logical qubits preserved by the schedule",
 "For every supported size and sub-round, the horizontal and vertical operators commute with every hexagon stabilizer and with the edges about to be measured, and multiplying in the path's edges measured in that sub-round gives the operator listed for the next one. The horizontal operator anticommutes with the vertical one at the same sub-round and commutes with the vertical one three sub-rounds away and with its own shifted version, giving two independent logical qubits.",
 ["configurations"], "every size, every sub-round index (period 6), both observables",
 "Tests pin the operators for two sizes and simulate the two-qubit claim for one layout.",
 [LAY], [("observable patterns", LAY)], ["obs_*_before_sub_round, obs_*_edges"])
prop("C13", "Measurement bookkeeping resolves every key to the right measurement records",
 "After any sequence of recorded measurements, known-value dummies, obstacles and groups, asking for any combination of keys (including earlier occurrences, also nested) yields exactly the parity set of the corresponding measurements, relative to the requested point in time, with repeated measurements cancelling. A combination involving an unknown value yields nothing (and no detector), and asking for more history than exists, or recording under no key or under a reference to an earlier occurrence, is an error.",
 ["histories"], "all sequences of tracker operations over any hashable keys, all look-back depths",
 "Two short fixed sequences are tested; groups, record offsets and nested look-back are not.",
 [TRK], [("history lists and xor of time sets", TRK)], ["MeasurementTracker results", "DETECTOR targets"],
 [dict(name="history", meaning="per key list of parity sets or unknown", where=TRK)])
prop("C14", "The matching graph represents the detector error model faithfully",
 "For any graphlike-decomposed detector error model (with loops, detector and coordinate shifts), flattening reports every error component and detector coordinate exactly as the fully unrolled model does. In the resulting graph each symptom pair (or single symptom joined to the boundary) is one edge whose probability is the odd-parity combination of all its errors, whose weight is the log odds, and whose logical effect is theirs; on conflicting effects the first listed wins, symptomless and zero-probability errors are ignored and components with more than two symptoms are rejected.",
 ["inputs", "programs"], "every detector error model with components of at most two symptoms",
 "Tests check component counts and degrees of one honeycomb graph per style.",
 [DEC], [("iter_flatten_model", DEC), ("detector_error_model_to_nx_graph", DEC)], ["graph nodes, edges and attributes"])
prop("C15", "Matching predictions are minimum-weight explanations of the symptoms",
 "For any error model and any consistent set of symptoms, the decoder predicts, for every observable, the effect of a minimum-weight set of graph edges explaining exactly those symptoms (any one of them when several tie); no symptoms means no flips. Predictions are independent of the other shots in the batch and exist for every observable, including ones no error can flip, and for models with unreachable detectors or no errors.",
 ["inputs"], "every matchable error model, every explainable syndrome, every batch",
 "Tests only run the decoder on random honeycomb samples without looking at the predictions, and never on models with silent observables.",
 [DEC], [("decode_using_pymatching", DEC), ("detector_error_model_to_pymatching_graph", DEC)], ["prediction arrays"])
prop("C16", "A shot counts as correct exactly when all observables are predicted correctly",
 "For any circuit, shot count and supported decoder, the reported number of correct shots is the number of sampled shots whose predicted observables all match the actual ones, with predictions made only from that shot's detection events and the error model of the given model circuit (by default the sampled circuit). Shot counts and detector/observable columns are never mixed up, incompatible model circuits and unknown decoder names are rejected.",
 ["inputs", "programs"], "every annotated circuit (any number of detectors and observables, including none), shot count, model circuit",
 "Tests discard the returned count except in one statistical test.",
 [DEC], [("sample_decode_count_correct", DEC)], ["returned count"])
prop("C17", "The external decoder gets exactly the samples and model, and is scored verbatim",
 "When decoding with the external program, for any circuit and samples the program receives the decomposed error model, one line per shot listing exactly the fired detectors, and the correlated-decoding switches exactly when correlated decoding was requested; its 0/1 output lines become the predictions bit for bit, in shot and observable order. A failing program, short or malformed output raises an error instead of producing predictions, and a missing program is reported; when the program itself fails, the model, the shots and the circuit it failed on are left in repro.dem, repro.dets and repro.stim.",
 ["inputs", "fault_sequences"], "every sample matrix, every program output, every failure of the program",
 "The program is not public, so its tests are skipped.",
 [DEC], [("decode_using_internal_decoder", DEC)], ["files and command line seen by a stand-in program", "predictions"])
prop("C18", "Collection takes the requested shots: no early stop, no overshoot, no hang",
 "For every problem, whatever the sequence of batch results, collection continues until at least the minimum number of shots and then until the maximum, or both statistical targets (logical errors seen and sample standard deviation) are met, or the error rate is at least 48% with at least 10 errors, and stops at the first batch where that is so. The total never exceeds the maximum (which overrides the minimum), no batch exceeds the batch limit or is empty, the first batch is the minimum where the limits allow and later ones double up to the batch limit and what is left, and every problem is processed in order with its own circuit and decoder.",
 ["histories", "inputs"], "all batch-result histories, all limits (min/max shots, batch limit, targets), any number of problems",
 "One call with min = max = 10 shots is tested.",
 [COL], [("collection loop", COL)], ["decoder calls", "recorded rows"])
prop("C19", "Recorded data survives: append, interruption and read-back lose nothing",
 "Each completed batch is on disk before the next starts, as one row holding the problem's description, the shots taken and how many were correct; an interruption at any point loses at most the batch in flight. For any history of collection runs over new, empty or existing files, previous rows are kept unless discarding was requested, there is exactly one header, and reading the files back gives per problem description exactly the summed shots, correct counts and seconds of all rows over all files.",
 ["histories", "crash_points"], "all sequences of collection runs (append or discard), interruption after any batch, any number of files read together, any field values",
 "One discard-and-write run is read back without looking at the values.",
 [COL], [("append per batch", COL), ("read_recorded_data", COL)], ["CSV file contents", "read_recorded_data result"])
prop("C20", "Merging, grouping and filtering conserve every shot",
 "For any recorded data set and key function, grouping partitions the entries, merging sums shots, correct counts and seconds per key, filtering keeps exactly the matching entries, results are ordered by key and the source data is not modified. A description derived from another differs in exactly the fields given. The aggregation script's output, over any files and directories, contains one row per distinct problem in sorted order with exactly the total of all its rows, and aggregating its own output changes nothing.",
 ["inputs", "histories"], "all data sets, key functions and predicates, all file and directory arrangements",
 "Nothing tests these functions or the script.",
 [COL, AGG], [("grouped_by / merged_by / filter", COL), ("main", AGG)], ["returned data", "script output"])
prop("C21", "Error-rate bounds are the requested relative-likelihood interval",
 "For any shot and error counts and any ratio, the reported interval contains the observed rate, lies within [0,1], and its ends are where the binomial likelihood falls to the requested ratio of its maximum, to within a hundredth of an expected error (0 and 1 when the likelihood never falls that low). Lower ratios give wider intervals, and swapping errors with successes mirrors the interval.",
 ["inputs"], "num_shots from 1 to 10^9, every error count, every ratio in (0,1)",
 "Eleven fixed cases, all with the error fraction at 1/2 or above 0.9999.",
 [COL, PRO], [("likely_error_rate_bounds", COL), ("log_binomial, binary_search", PRO)], ["returned bounds"])
prop("C22", "Log-likelihood and search primitives are accurate over their whole domain",
 "The log binomial probability agrees with the exact value for every n, hit count and p including 0 and 1 (minus infinity exactly when impossible, out of range p clamped), element by element over arrays, and the log factorial agrees with the exact value. For a monotonic function, integer search returns an in-range argument whose value is nearest the target, and real-valued search returns an argument on the requested side whose value is within the tolerance of the target.",
 ["inputs"], "n up to 10^9, all hits, all p and arrays of p; all monotonic functions, ranges, targets, tolerances",
 "About 25 fixed cases at 1e-2 relative tolerance.",
 [PRO], [("log_binomial, log_factorial, binary_search, binary_intercept", PRO)], ["returned values"])
prop("C23", "Line-fit ranges are the exact extent of fits within the allowed cost increase",
 "For any data with at least two distinct abscissae, the slope range and the predicted-value range are the extreme slopes and extreme predictions at the target among all lines whose summed squared error exceeds the best fit's by at most the given increase; they bracket the best fit symmetrically. The fit through a required point passes through it with the cost-minimal slope, and the fit with a required slope has the cost-minimal intercept.",
 ["inputs"], "all data sets (2 or more points), targets inside and outside the data, cost increases",
 "One hand-made data set of three collinear points (one of the tests is not even collected).",
 [PRO], [("least_squares_* functions", PRO)], ["returned ranges"])
prop("C24", "Per-piece error rates recombine to the total error rate",
 "For any total error rate in [0,1] and number of pieces, the per-piece rate is such that the chance of an odd number of flips among that many independent pieces is the total rate (for rates above one half, its complement is converted and complemented back). It is 0 at 0, one half at one half, the identity for one piece, increasing in the total rate and never farther from the nearest of 0 and 1 than the total rate is.",
 ["inputs"], "error rates in [0,1] (also below 1e-12 and above one half), pieces from 1 to 10^6",
 "Thirteen fixed cases below one half.",
 [PLO], [("total_error_to_per_piece_error", PLO)], ["returned rate"])
prop("C25", "Threshold plots show the recorded data: right curves, points and bands",
 "For any recorded data, the threshold plot draws one curve per distinct problem other than its noise, through the observed logical error rate per code cell at each noise strength in increasing order (points without observed errors omitted), and around it a band between the likelihood bounds at ratio 1/1000 converted the same way, at every noise strength. Curves look different from each other, the view contains the threshold region (or, unfocused, the whole collected range), tick labels state the values they stand at; when asked to, the finished figure is saved under the given path or shown, once, and otherwise neither. It works for any number of curves and leaves the data unmodified.",
 ["inputs"], "all data sets, any number of problems and noise strengths",
 "One data set is plotted without looking at the figure.",
 [PLO, COL], [("plot_data", PLO)], ["matplotlib axes contents"])
prop("C26", "Lambda and teraquop projections follow from the recorded error rates",
 "For any recorded data, each noise strength's combined error rate at each distance is the chance that either observable fails in a code cell, the fitted line is the least-squares fit of its logarithm, and projections are mutually consistent: the projected distance reaches the target error, qubit counts are those of the smallest real layout of at least that distance, the suppression factor range and the qubit count range are the extremes over line fits whose cost exceeds the best by at most 1, and groups without suppression are reported as such. The line-fit, lambda and teraquop figures draw these values, for any number of noise strengths, in panels labelled with what they show and one colour per noise strength throughout the line-fit figure; the teraquop figure marks the points extrapolated from fewer than three distances of an observable.",
 ["inputs"], "all data sets with consistent rounds per distance, target errors, code families",
 "The module has no tests.",
 [LAM, PLO, PRO], [("LambdaGroup", LAM)], ["LambdaGroup results, figure contents"])
prop("C27", "Problem descriptions match the circuits they stand for",
 "For every problem the paper's collection script enumerates and every layout turned into a problem, the description written next to the results (size, rounds, noise, style, observable, distance, qubit count, decoder) is true of the circuit that is actually sampled, and distinct problems have distinct descriptions. Stored surface code circuits, with the noise model and strength of their description, have that distance and qubit count and zero logical errors without noise.",
 ["configurations"], "all 1500 enumerated problems; every layout and decoder",
 "The script has no tests; descriptions are never compared with circuits.",
 [ALL, LAY], [("honeycomb_problems, surface_code_problems, as_decoder_problem_desc", ALL)], ["DecodingProblem descriptions and circuits"])
prop("C28", "Detection-fraction data counts exactly the fired detectors",
 "For any problems and shot count, each recorded detection-fraction row holds shots times detectors as the total and, as the correct count, that total minus the number of detection events that occurred, with observables not counted and the problem's description kept. Rows are printed under one header, appended, discarded and read back like other collected data, and the detection-fraction figure shows for each style and noise exactly the recorded fraction at each distance.",
 ["inputs", "histories"], "all circuits and shot counts, all file histories",
 "Nothing tests it.",
 [COL], [("collect_detection_fraction_data", COL)], ["CSV rows"])
prop("C29", "Circuit diagrams show every drawn operation at its place",
 "For any generated circuit the textual diagram shows, for every drawn layer, exactly one mark per qubit: the mark of the operation acting on it or a placeholder, in positions that identify qubit and layer; every two-qubit operation is a line between its qubits, or two open ends when they lie on opposite edges of the torus, and no other lines are drawn; annotations and (uncorrelated) noise do not change it. Restricting to the repeated part shows exactly the layers of the loop body, and two-dimensional rendering puts every value at its coordinates.",
 ["configurations", "inputs"], "all circuits of the ancilla based and EM3 styles, all value grids",
 "Three circuits are compared with stored diagrams.",
 [DIA], [("plot_circuit, diagram_3d, diagram_2d", DIA)], ["diagram text"])
prop("C30", "Circuit generation is deterministic and its size does not grow with rounds",
 "Generating the circuit of a layout always gives the same circuit, in any process, in any order with other layouts, and whatever was computed before. The written circuit's length is bounded independently of the number of sub-rounds while its number of measurements, detectors and ticks grows by the same amount for every additional cycle.",
 ["configurations", "histories"], CONF + "; up to a million sub-rounds; any interleaving of generator calls",
 "Each test generates each circuit once in one process with at most 1003 sub-rounds.",
 [CIR, LAY, TRK], [("loop folding", CIR), ("caches on layouts", LAY)], ["generated circuits"])
prop("C31", "Remaining-work estimates agree with the stopping rule",
 "For any accumulated data and limits, work is finished exactly when the shots or errors reach their limit or the error rate reaches the cut-off after at least 10 shots; remaining shots, errors and time are zero then; otherwise shots and errors are (positive and) what is left to each limit, and time is the smaller of the two extrapolations (unknown without data).",
 ["inputs"], "all shot/correct/second totals and limits",
 "Nothing tests it.",
 [COL], [("RemainingWork", COL)], ["RemainingWork properties"])
prop("C32", "The collection script runs exactly the selected problems with the given limits",
 "For any command line, the paper's collection script runs all enumerated problems in order (honeycomb, then surface code from the given or default directory, none for '-') or exactly the one selected by number, with at least 25 shots each and the requested limits on shots, errors and batch size (by default 10^8 shots and 1000 errors divided by the case reduction, and batches of 2^15), appending to the output file when one is given and always printing every row. A number outside the list is an error and samples nothing.",
 ["inputs", "histories"], "all command lines, all histories of runs over one output file, any batch results",
 "Nothing tests the script.",
 [ALL, COL], [("main, collect_data", ALL)], ["sampler calls", "printed and written rows"])
THR, DET = "src/paper/main_render_threshold_figure.py", "src/paper/main_render_detection_fraction_figure.py"
prop("C33", "Figure scripts draw all the data they are given into the named figures",
 "For any division of recorded data over CSV files and directories given on the command line, the threshold, lambda and detection-fraction scripts save each of their figures under its name in gen/ as PDF and PNG, each drawn from the sum of all rows in the given files and in the CSV files directly inside the given directories, and from nothing else. Inputs are not modified, and without arguments the scripts refuse to run.",
 ["inputs"], "all data sets, all divisions of the rows over files and directories",
 "Nothing tests the scripts.",
 [LAM, THR, DET], [("main", THR), ("main", LAM), ("main", DET)], ["saved figures"])
GRA, EXA = "src/paper/write_honeycomb_networkx_graph.py", "src/main_example.py"
prop("C34", "Every script runs end to end, from any directory",
 "Started as a program from any working directory, by any path to its file, every script finds the repository's own modules and runs to completion: the collection script drives the installed decoder program and records each requested problem's shots once in the given file, aggregation prints the totals of the given files, the figure scripts write real PDF and PNG files, and the graph export replaces test.graph by a pickle of exactly the matching graph of its circuit. The README's example, whatever results the decoder gives, collects exactly its six documented problems to the documented limits, replaces an earlier test.csv by exactly what it collected, and shows one plot of exactly those data.",
 ["inputs", "histories"], "all working directories and ways to start a script, all recorded data, all decoder results",
 "Nothing tests the scripts, and tests import the modules with the path already set up.",
 [ALL, "src/paper/aggregate_csv_data.py", LAM, THR, DET, GRA, EXA], [("module search path and main", ALL), ("main", GRA), ("main", EXA)], ["processes started", "files written", "figure shown"])
pathlib.Path(__file__).resolve().parents[1].joinpath("properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
