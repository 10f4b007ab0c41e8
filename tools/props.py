"""Property texts; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, level, note):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=mechanism), level=level, note=note))


TG = "qermit/taskgraph/"
prop("C01", "Running a task graph is the composition of its tasks",
     "Whatever sequence of append, prepend, parallel, wire additions, copies and nested-graph decompositions built a task graph, running it returns for each output wire exactly the value obtained by composing the tasks' functions along the wires, with every wire reaching the port it was connected to. Decomposing nested graphs, copying a graph or caching a run never changes what a run returns, and changing a copy never changes the graph it was copied from. A task whose number of wires does not fit is refused and leaves the graph as it was.",
     ["histories", "programs", "inputs"], "all construction histories of graphs (append, prepend, parallel, add wires, nest, decompose, copy), all tasks and all wire values",
     "The tests build a handful of small graphs by hand, most with one wire per task, so wrong port order or state shared between copies cannot show up.",
     [TG + "task_graph.py", TG + "mittask.py"], ["TaskGraph.run", "TaskGraph.append", "TaskGraph.prepend", "TaskGraph.parallel", "TaskGraph.decompose_TaskGraph_nodes", "TaskGraph.from_TaskGraph", "duplicate_wire_task_gen"],
     "exploration", "Task and wire-duplication contracts are proved for all inputs; graph composition is a bounded check (random construction histories of up to 4 operations per level, nesting depth 2, against a compositional model with free functions). Trusted: networkx, z3, the executor.")
prop("C02", "Splitting shots over jobs conserves circuits, shots and results",
     "When a job limit is set, every job sent to the device requests between one shot and the limit, runs one of the requested circuits, and the shots of the jobs of a circuit add up to exactly what was requested for it. The result returned for a circuit holds every shot of every one of its jobs, in order, with each bit in its own column, and one result is returned per circuit in the order given. Without a limit each circuit is run once with its own shots and its result is returned at its own position.",
     ["inputs"], "all job limits, all lists of circuits with positive shots, all results a device may return",
     "Tests use a few fixed shot numbers and registers whose bits are already sorted; the arithmetic must hold for every limit and request.",
     [TG + "mitres.py"], ["split_shots_task_gen", "group_shots_task_gen", "gen_shot_split_MitRes", "backend_handle_task_gen", "backend_res_task_gen"],
     "proof", "Splitting is proved for all limits and all lists of circuits (16 obligations, z3). Merging, the pipeline and the compile task are bounded checks on a recording backend (labelled bounded in the evidence).")
prop("C03", "Experiments run together give each experiment its own expectation values",
     "Running several experiments at once returns, per experiment and in order, every string of its operator mapped to its coefficient times the expectation measured from that experiment's own circuits and results, so that on a noiseless device it equals the coefficient times the exact expectation on the state prepared with the experiment's symbol values. Circuits are collated for the device and results are handed back without loss, duplication or mixing, each compiled for the device unless a MitRes given says otherwise and measured with its experiment's shots. Tasks whose wires or types do not fit, extra wires, and operators on qubits the circuit lacks are refused.",
     ["inputs", "histories"], "all lists of experiments (circuits, symbol values, operators, given measurement circuits) and all device results",
     "Tests run one or two fixed experiments with sampled shots and loose tolerances, so swapped or misattributed results between experiments and inverted parities stay unseen.",
     [TG + "mitex.py", TG + "utils.py"], ["collate_circuit_shots_task_gen", "split_results_task_gen", "get_expectations_task_gen", "filter_observable_tracker_task_gen", "MitEx.run", "MitEx.run_basic"],
     "proof", "Collating and splitting are proved for all inputs; the whole pipeline is a bounded check against a numpy simulation with exact counts (up to 4 experiments of up to 4 qubits).")
prop("C04", "Observable trackers and symbol dictionaries report exactly what was recorded",
     "After any sequence of creating, copying, extending, modifying, removing, adding measurements and clearing, a tracker reports exactly the strings and coefficients of its operator, which of them still need a measurement, the circuits measuring each, and expectations equal to the coefficient times the signed parities of the recorded bits. Trackers never share state with each other, with their copies or with the operator they were made from. Symbol dictionaries assign values to symbols by position or by name, keep all others, and refuse unknown symbols.",
     ["histories", "inputs"], "all histories of tracker operations, all operators, all results, all symbol dictionaries",
     "Tests check single calls on one fresh object; sharing between copies and strings added later only shows in longer histories.",
     [TG + "utils.py"], ["ObservableTracker", "SymbolsDict", "MeasurementCircuit.get_parametric_circuit"],
     "proof", "Tracker operations and expectations and symbol handling are proved for all operators (through the source of pytket's operator class); measurement bookkeeping histories and substitution are bounded checks. Assumed: coefficients are reals, get_counts and expectation_from_counts are functions of their arguments.")
prop("C05", "Postselection keeps exactly the shots that pass, with the bits asked for",
     "Postselecting a result keeps every shot whose postselection bits are all 0 and no other, reports each kept shot through the computation bits in the order given, and does not change its multiplicity; when nothing passes the result has no counts. Merging drops the postselection bits and keeps every shot. A postselecting MitRes runs each circuit with its own shots, applies the manager's rule to each circuit's own result, returns the results in order, and leaves the MitRes it was built from unchanged. A bit cannot be both a computation and a postselection bit.",
     ["inputs"], "all bit assignments, all results (counts or shots, any bit order, any register names), all lists of circuits",
     "Tests use two or three fixed circuits with bits in register order; other orders, several postselection bits and repeated shots are not sampled.",
     ["qermit/postselection/postselect_manager.py", "qermit/postselection/postselect_mitres.py"],
     ["PostselectMgr", "postselect_result", "merge_result", "gen_postselect_task", "gen_postselect_mitres"],
     "proof", "Proved for all counts over three bits (one or two postselection bits) and for all lists of results; other numbers of bits, real results and the pipeline are bounded checks. Assumed: BackendResult.get_counts sums the counts given by the bits asked for.")
prop("C06", "SPAM correction removes the calibrated readout noise from the right bits",
     "Calibration prepares and reads every basis state of every correlated subset with the requested shots, in as many circuits as the largest subset has states, and the matrices found hold the device's probability of reading each state when another was prepared. Each result is then corrected, with the noise of the qubits measured into its own bits whatever the order and size of the subsets, by inverting the product of their matrices, clipping negative values and normalising, keeping its number of shots up to rounding each count up; on a device with exactly that noise the noiseless distribution comes back. Unread qubits count as read in 0. The method asked for is the one used; calibration happens once; circuits run compiled, with their own shots, results come back in order, and missing maps, states or characterisations are refused.",
     ["inputs", "configurations"], "all partitions of the qubits into correlated subsets in any order, all invertible confusion matrices, all circuits with final or mid-circuit measurements, all results",
     "Tests use noiseless devices or symmetric noise on equal-sized subsets in order, where taking the wrong matrix or the wrong bit changes nothing.",
     ["qermit/spam/full_transition_tomography.py", "qermit/spam/full_spam_correction.py", "qermit/spam/spam_mitres.py"],
     ["get_full_transition_tomography_circuits", "calculate_correlation_matrices", "correct_transition_noise", "reduce_matrices", "CorrectionMethod", "gen_full_tomography_spam_correction_task", "gen_FullyCorrelated_SPAM_MitRes"],
     "exploration", "Proved for all inputs: each result is corrected with its own map and the stored noise, and mismatches are refused (over the contract that correct_transition_noise is a function of its arguments). The correction itself is a bounded check on a simulated noisy device with up to 5 qubits, against explicit Kronecker products. Precondition for mid-circuit measurements: noise of the measured qubits factorises.")
prop("C07", "Measurement circuits measure the Pauli string they are recorded for",
     "For every Pauli string, the basic measurement circuit reads each qubit that is not I into a bit of its own and no other, after a basis change that makes the parity of those bits, inverted if recorded so, exactly the string. Measurement reduction, with every strategy, colouring method and gate configuration, records for every string one circuit that is the experiment's ansatz followed by a basis change of that kind, uses no more circuits than strings, keeps ansatz, shots, operator and coefficients, and so gives the same expectations as measuring each string on its own.",
     ["inputs", "configurations"], "all Pauli strings, operators, ansatz circuits, qubit names and reduction settings",
     "Tests compare gate lists of a few fixed strings; signs, Y bases, identity strings and qubits outside the default register are not covered.",
     [TG + "mitex.py", TG + "measurement_reduction.py"], ["get_basic_measurement_circuit", "filter_observable_tracker_task_gen", "measurement_reduction_task_gen", "gen_MeasurementReduction_MitEx"],
     "proof", "The basic circuit is proved, for strings of any length, to be the basis change of each non-identity qubit followed by its measurement into its own bit; that those basis changes diagonalise the string is checked exhaustively up to 3 qubits by matrices. Reduction is a bounded check of exact observables (up to 3 qubits, all settings). Assumed: circuits to which the same operations were added are equal.")
ZN = "qermit/zero_noise_extrapolation/"
prop("C08", "Noise scaling by folding keeps the unitary and scales gate counts as asked",
     "Folding returns a circuit with the same qubits and bits implementing the same unitary up to phase, whatever gates, barriers, classical bits and implicit permutations the circuit has, and never changes the circuit given. Gate counts scale exactly where that is possible and otherwise to the closest value below, or the request is refused when approximation is not allowed: circuit folding scales every gate by the odd integer asked for, two-qubit folding folds only two-qubit gates and all of them evenly, gate folding adds only pairs of a gate and its inverse, odd-gate folding folds the first, third, fifth gate and so on. Folds are separated so that compilation cannot cancel them. Noise-aware scaling returns the samples asked for, each adding only Pauli errors behind gates the noise model names, at the rate that scales the noise as asked. Boxes, circuits without two-qubit gates, even integers and factors below one are refused.",
     ["inputs"], "all circuits, all noise scalings, all random choices",
     "Tests fold a few circuits in default registers by scalings that floating point represents well and mostly count gates; permuted wires, other registers and rounding are not sampled.",
     [ZN + "zne.py", "qermit/noise_model/pauli_error_transpile.py"], ["Folding", "PauliErrorTranspile"],
     "exploration", "Circuit folding is proved for circuits of any length in terms of gates as free generators (unitary, counts, barriers, refusals). The rest is a bounded check: random circuits of up to 3 qubits and 7 gates of distinct angles against a numpy simulator and gate counts. pytket's to_dict/from_dict and dagger are outside the verifier's reach.")
prop("C09", "Zero noise extrapolation extrapolates each string from its own values",
     "Zero noise extrapolation returns, per experiment and in order, every string of its operator on the qubits the user named, with the value at zero of the fit asked for through the values measured at each noise scaling, each paired with its own scaling; noise that follows the fitted family exactly is removed exactly, however circuits are compiled and qubits relabelled or permuted. Linear, polynomial and Richardson fits are the least-squares polynomials of their degree, exponential and cube-root fits find curves through the data, and degrees that cannot be fitted are refused. Several circuits of one experiment share its shots and are merged by their mean; circuits of one experiment measuring different strings are refused. Copies handed to the scalings are equal and independent and the user's experiments are unchanged.",
     ["inputs"], "all lists of experiments, noise scalings, values, index lists and node maps",
     "Tests run one or two experiments with loose tolerances on a simulator whose qubits are not relabelled, so values paired with the wrong scaling, experiment or qubit average out.",
     [ZN + "zne.py"], ["extrapolation_task_gen", "merge_experiments_task_gen", "digital_folding_task_gen", "Fit", "qpo_node_relabel", "gen_initial_compilation_task", "gen_qubit_relabel_task", "gen_duplication_task", "gen_ZNE_MitEx"],
     "proof", "Extrapolation is proved for all lists of experiments (three scalings, any real values) and folded circuits for all lists (up to three samples each); merging is proved for three operators of any size. Fits, relabelling, duplication and the pipeline on a simulated device with polynomial noise are bounded checks.")
CN = "qermit/clifford_noise_characterisation/"
prop("C10", "Clifford data regression corrects each string by its own training circuits",
     "Training circuits are the experiment's own circuit, with its symbol values, in which exactly the number asked for of non-Clifford rotations (at least one fewer than it has) keep their angle and the others become Clifford rotations, everything else being kept; as many are made as asked for, and more pairs than rotations kept is refused. The noisy and the exact value of each training circuit are paired and batched with their own experiment, the filter drops pairs only by the likelihood given, the quality check changes nothing, and the model fitted to the pairs of a string by least squares corrects that string of that experiment and no other, so noise acting alike on circuit and training circuits is removed. Each step runs on the MitEx given for it, by default compiled for the device, with the shots of its experiment. Mismatched results are refused.",
     ["inputs"], "all circuits and symbol values, all numbers of rotations, pairs and training circuits, all values measured",
     "Tests fit one string of one experiment with loose tolerances; values paired with another experiment, string or training circuit still give a line near the right one.",
     [CN + "ccl.py", CN + "cdr_post.py"], ["gen_state_circuits", "ccl_state_task_gen", "ccl_result_batching_task_gen", "ccl_likelihood_filtering_task_gen", "cdr_calibration_task_gen", "cdr_correction_task_gen", "cdr_quality_check_task_gen", "gen_CDR_MitEx"],
     "proof", "Batching, filtering, polynomial evaluation and correction (two experiments with operators of any size) are proved. Training circuits (up to 3 qubits), calibration, quality check and the pipeline on a simulated device are bounded checks. Precondition: training values are not all zero.")
prop("C11", "Depolarising noise characterisation divides each string by its own damping",
     "Every string of every experiment is characterised on its own: on the experiment's circuit with all symbols set to Clifford angles, preceded by the preparation of an eigenstate so that without noise the string is certainly +1 or certainly -1, measured with the experiment's shots. By default they are compiled for the device. Characterisations are collated and returned to their experiments without loss or mixing, and each measured value is divided by the magnitude of the characterisation of its own string, or kept when that does not exceed the threshold given, so that noise damping the circuit and its characterisation alike is removed exactly. Circuits that are not Clifford at those angles and mismatched results are refused, and the experiments given are unchanged.",
     ["inputs"], "all lists of experiments, symbolic circuits, operators, thresholds and values",
     "Tests use two fixed strings on a noiseless simulator, where every characterisation is 1 and pairing it with the wrong string or experiment changes nothing.",
     [CN + "dfsc.py"], ["DFSC_circuit_task_gen", "preparation_circuit_for_partition", "get_clifford_mcs", "DFSC_collater_task_gen", "DFSC_characterisation_task_gen", "DFSC_correction_task_gen", "gen_DFSC_MitEx"],
     "proof", "Correction is proved for all lists of experiments and operators, collation for all lists; splitting characterisations, circuits (up to 3 qubits) and the pipeline on a simulated depolarising device are bounded checks.")
PE = "qermit/probabilistic_error_cancellation/"
prop("C12", "Learning-based error cancellation learns and applies each string's own weights",
     "The circuit of every experiment is rebased into single-qubit computing gates and CX frames, each named once, without changing its unitary, and every two-qubit Pauli error of every frame is inserted exactly once, alone, on both sides of its frame, next to the circuit itself. Training circuits keep all frames, replace the computing gates by Cliffords, give their string a non-zero expectation and keep the qubits of the string. Noisy and noiseless values are collated by experiment, string, training circuit and error without loss, the quasi-probabilities of a string are the least-squares solution over its own training circuits, and the value returned for each string is the sum of its noisy values weighted by them, so noise acting alike on circuit and training circuits is removed. Random Clifford circuits are uniform over the Clifford group and repeat for equal seeds. Unsupported gates, names, devices and mismatched results are refused.",
     ["inputs"], "all circuits, operators, lists of experiments, errors and values, all random choices",
     "Tests use circuits with one or two frames and one string on simulators keeping qubit names, compare shapes or loose averages, and never look at the distribution of the Clifford circuits.",
     [PE + "pec_learning_based.py", PE + "cliff_circuit_gen.py"], ["substitute_pauli_but_one", "random_commuting_clifford", "label_gates", "wrap_frame_gates", "list_pauli_gates", "gen_get_noisy_circuits", "gen_get_clifford_training_set", "collate_results_task_gen", "learn_quasi_probs_task_gen", "gen_run_with_quasi_prob", "gen_PEC_learning_based_MitEx", "random_clifford_circ", "clifford_canonical_F", "sample_q_mallows"],
     "exploration", "Mitigation with quasi-probabilities and collation are proved for all values, for fixed numbers of experiments, strings and errors. Circuits (up to 3 qubits and 3 frames), learning, Clifford sampling (chi-square over 24 and 720 elements) and the pipeline are bounded checks.")
FR = "qermit/frame_randomisation/frame_randomisation.py"
prop("C13", "Frame randomisation leaves every circuit's distribution unchanged",
     "Each circuit is run as exactly the number of random instances asked for, with its shots divided among them rounding up; every instance acts on the same qubits and bits and computes the same unitary or distribution as the circuit, under the kind of frame asked for (Pauli frames keep rotation angles, universal frames also invert them). The results of the instances of a circuit, and of no other circuit, are added into one result in which every shot is counted and every bit keeps its own value, in the order of the circuits. Every instance is compiled for the device; a MitRes given is used and left unchanged, and the user's circuits still compute the same.",
     ["inputs"], "all lists of circuits, shots and numbers of instances, all results, all random frames",
     "Tests run a few circuits in default registers and compare counts loosely; other bit orders, several circuits and uneven shots are not sampled.",
     [FR], ["FrameRandomisation", "frame_randomisation_circuits_task_gen", "frame_randomisation_result_task_gen", "gen_Frame_Randomisation_MitRes"],
     "proof", "Proved for all lists of circuits (three instances each) and all counts over two bits (two instances of two circuits). Instances themselves and the pipeline are bounded checks (up to 3 qubits) against a numpy simulator. Circuits on which pytket's cycle finder raises or aborts are outside the property.")
NM = "qermit/noise_model/"
prop("C14", "Noise models store, scale, mix, sample and postselect errors by their rates",
     "An error distribution gives each error the rate it was made with and nothing the rest; its Pauli transfer matrix is diagonal, holds the factor by which the errors damp each Pauli under that Pauli's index, and gives the distribution back; scaling raises every factor to the power asked for, for each gate of a noise model separately; mixing averages rates; ordering, storing and reading back lose nothing; sampling returns each error exactly on an interval as long as its rate, repeats for equal seeds and returns none otherwise. Postselecting logical errors drops exactly those that flip a postselected qubit, removes those qubits, and counts the shots left. Rates above one, errors of different sizes and matrices that are no Pauli channel's are refused; nothing given is changed.",
     ["inputs"], "all error distributions on one or two qubits, scaling factors, noise models, logical errors and random numbers",
     "Tests scale and convert a few distributions with loose tolerances and compare samples with one seed; identity or vanishing entries, other indices and postselection of sampled errors are not covered.",
     [NM + "noise_model.py"], ["ErrorDistribution", "LogicalErrorDistribution", "NoiseModel"],
     "proof", "Rates, sampling (any distribution), mixing (three distributions), noise model lookup and scaling per gate, and postselection are proved; transfer matrices and scaling are bounded checks against explicit sums (1 or 2 qubits), as are JSON and frequencies. Precondition: the scaled channel has non-negative rates.")
prop("C15", "Paulis pushed through Clifford circuits are what matrices say, phases included",
     "A Pauli string with its coefficient, after any sequence of commuting it through Clifford gates and circuits (implicit qubit permutations included), multiplying Paulis from either side and inverting, is exactly the operator product: pushing P through G gives the Q with QG = GP. Its circuit and its controlled circuit implement it with its phase, it shows in measurements of exactly the qubits where it is X or Y, removing qubits keeps the rest, and equality and hashing follow the operator. Propagating noise through a circuit draws one error for each noisy gate and returns the one Pauli at the end asked for that changes the circuit as the errors do in place; those that cancel are not counted, out of as many circuits as asked for. Circuits given are unchanged; gates that are not Clifford or act on bits are refused.",
     ["inputs", "histories"], "all Pauli strings, Clifford gates and circuits, sequences of operations, errors drawn",
     "Tests push a few strings through fixed circuits; signs, imaginary coefficients, relabelled or permuted qubits and mixed histories are not sampled.",
     [NM + "qermit_pauli.py", NM + "noise_model.py"], ["QermitPauli", "random_propagate", "counter_propagate", "get_effective_pre_error_distribution"],
     "exploration", "Proved for circuits of any length: the order in which gates and errors act on the propagated Pauli (recorded by a stand-in). The Pauli itself is pytket's tableau, outside the verifier: checked by matrices for every Clifford operation pytket has on every Pauli string of its size, and for random histories of up to 3 qubits.")
CP = "qermit/coherent_pauli_checks/"
prop("C16", "Coherent Pauli checks find what they should and change nothing else",
     "Boxing replaces groups of Clifford gates by boxes without changing what a circuit does: measurements, conditions, resets, order on shared bits, phase, implicit permutations, labels and barriers included; every gate of a Clifford type is in a box, boxes hold only Clifford gates, can be run one after another, and no two of them could be one. Adding checks puts around every box the checks sampled for its circuit, each with its own qubit and bit: without noise all check bits read 0 and outcomes and states are unchanged, and an error inside a box sets exactly the bits of the checks it anticommutes with there. The MitRes built keeps exactly the shots whose check bits are all 0, in each circuit's own bits, order and shots. Samplers return as many checks as asked for, never the identity; the optimal one returns checks that miss no more errors than any others. Circuits given are unchanged.",
     ["inputs", "programs"], "all circuits, Clifford gates among them, checks, errors, graphs and colourings, distributions of errors",
     "Tests box and check a few circuits with default registers by comparing gates; conditions, permutations, labels, larger graphs and errors behind relabelled boxes are not sampled.",
     [CP + "box_clifford_subcircuits.py", CP + "coherent_pauli_checks_mitres.py", CP + "monochromatic_convex_subdag.py", CP + "pauli_sampler.py"],
     ["BoxClifford", "get_monochromatic_convex_subdag", "PauliSampler", "OptimalPauliSampler", "gen_coherent_pauli_check_mitres", "gen_check_circuit_task", "gen_find_cliffords_task"],
     "exploration", "Proved for all inputs: which commands count as Clifford, neighbours of sub-DAGs (two neighbours per node), both tasks (recording stand-ins), and that the optimal check misses fewest errors (one qubit, one check, any distribution). Boxing and checks are bounded checks by simulation (up to 4 qubits); sub-DAGs exhaustively up to 4 nodes.")
prop("C17", "Simulated noisy devices apply the noise asked for and keep results apart",
     "A TranspilerBackend takes every shot from its own copy of the circuit, compiled once by the pass given and then rebased, in batches none larger than allowed, exactly as many as asked for; shots are counted under the bits asked for, or the circuit's own bits each in its place. Handles lead to the results of their own circuit, in the order asked for, and backends share no results. The Pauli error pass draws one error for each gate with noise and puts it, labelled, right after that gate and on its qubits, changing nothing else: phase, implicit permutation, barriers, bits and labels included; errors that are not Paulis are refused. NoisyAerBackend depolarises h, rx, rz and cx on every qubit and pair, and flips read bits, at the rates given. MockQuantinuumBackend refuses circuits its device cannot run and returns each circuit's own shots. Circuits given are unchanged.",
     ["inputs", "histories"], "all circuits, shots, batch sizes, passes, errors, rates and handles",
     "Tests take large samples of one or two circuits with default registers and compare loosely; batch boundaries, bit order, several circuits and stored results are not sampled.",
     [NM + "transpiler_backend.py", NM + "pauli_error_transpile.py", NM + "noisy_aer_backend.py", NM + "mock_quantinuum_backend.py"],
     ["TranspilerBackend", "PauliErrorTranspile", "NoisyAerBackend", "MockQuantinuumBackend"],
     "proof", "Proved for all shots and batch sizes on one core (up to 60 per batch, 400 shots): shots, compilation and counts; and results and order of several circuits for all lists. Errors in place, several cores, bits and the two devices are bounded checks by simulation; rates are statistical, within 6 sigma at fixed seeds.")
SF = "qermit/spectral_filtering/"
prop("C18", "Spectral filtering reads each string from its own filtered landscape",
     "For every experiment the landscape of every string over all its symbols is evaluated on a grid of equally spaced points, each point with its own symbol values, the experiment's circuit, shots and observable, and run exactly once, by default compiled for the device; it is Fourier transformed, components smaller than the tolerance are set to zero and nothing else changes, it is transformed back, and the value returned is the filtered landscape interpolated at the symbol values the experiment was given. Grids, strings and experiments are never mixed, of whatever sizes they are, so a landscape without noise in filtered components gives its interpolated values back. Results of other strings are refused, and the experiments given are unchanged.",
     ["inputs"], "all lists of experiments, symbol values, numbers of points, tolerances and values measured",
     "Tests run one experiment with two symbols and one string of equal grid sides, compare shapes or loose values, and would not see the points of a grid, its strings or experiments being exchanged.",
     [SF + "spectral_filtering.py", SF + "signal_filter.py"],
     ["gen_param_grid_gen_task", "gen_symbol_val_gen_task", "gen_obs_exp_grid_gen_task", "gen_flatten_task", "gen_reshape_task", "gen_ndarray_to_dict_task", "gen_fft_task", "gen_mitigation_task", "gen_inv_fft_task", "gen_result_extraction_task", "SmallCoefficientSignalFilter", "gen_spectral_filtering_MitEx"],
     "proof", "Axes, copying, flattening, reshaping, transforms, filtering and extraction are proved for all lists of experiments and strings, the grid functions of numpy and scipy being unknown functions. The grid of experiments, filter values and the pipeline are bounded checks (up to 3 symbols). Precondition: symbol values lie within the grid, coefficients are real.")
LK = "qermit/leakage_detection/leakage_detection.py"
prop("C19", "Leakage detection keeps exactly the shots without detected leakage",
     "Every circuit is run with its own shots and with the leakage gadgets of its own measured qubits, within the qubits of the device, and the result returned for it holds exactly the shots in which every gadget reads 0, in the circuit's own bits, each in its place, the gadgets' bits being left out; one result per circuit, in order, so that without leakage results are unchanged. This holds for any lists of circuits of different sizes and registers, however often and with whichever MitRes it is run; circuits and the MitRes given are unchanged, and a device without information about its qubits is refused.",
     ["inputs", "histories"], "all lists of measured circuits, shots, devices and results",
     "Tests run two-qubit circuits on one device and compare with pytket's pruning, so results judged by another circuit's gadgets, other bit orders and small devices are not seen.",
     [LK, "qermit/postselection/postselect_mitres.py"], ["gen_add_leakage_gadget_circuit_task", "get_leakage_detection_mitres", "gen_postselect_task"],
     "proof", "Gadgets, shots and managers are proved for all lists of circuits (their bits being any sets, pytket's gadget circuit a stand-in that adds any bits). The pipeline on recording and exact simulated devices is a bounded check (up to 4 qubits, pytket's own gadgets). Precondition: every qubit is measured once at the end.")
