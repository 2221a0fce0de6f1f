"""Single source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="exploration", state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["seyfert/" + f for f in files],
                          mechanism=[dict(name=n, where="seyfert/" + w) for n, w in mechanism]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where="seyfert/" + w) for n, m, w in state]
    PROPS.append((d, technique, level, note))


prop("P01", "Observable keys denote one ordered probe pair in every notation",
     "Every ordered pair of the four probes has exactly one observable key in each of the three notations (long names, "
     "two-letter codes, alias pair); converting between notations, reversing, copying and comparing keys preserves the "
     "pair, order included, and equal keys hash equally. Containers keyed by observables find an entry under any "
     "notation of its key and under no other key. A spelling that denotes no probe or pair is rejected, never read as some other pair.",
     ["inputs"], "all 16 ordered pairs x 3 notations x chains of conversions, container operations, malformed spellings",
     "Tests convert a few hand-picked keys; the guarantee is over every pair, notation and container operation.",
     ["base_structs/cl_dict.py", "base_structs/generic_dict.py", "utils/shortcuts.py"],
     [("key parsing and notation conversion", "base_structs/cl_dict.py"), ("probe name tables", "utils/shortcuts.py")],
     "monitored conversions against an independent naming table (exhaustive pairs)",
     "Exhaustive over valid pairs and notations; malformed spellings are sampled mutations.")

prop("P02", "Data vectors survive every textual form with the same ordered entries",
     "A data vector read from any of its textual forms (bracketed sum, cross-correlation notation, key list, file name form) "
     "has exactly the written entries in the written order, and rendering it again gives the same name. Two data vectors are "
     "equal exactly when they hold the same ordered entries, whatever the notation. The probes it involves are those whose "
     "auto-correlation it contains, and malformed forms are rejected.",
     ["inputs"], "all ordered selections of ordered probe pairs in mixed notations, chains of textual forms",
     "Tests parse four fixed names.",
     ["fisher/datavector.py", "utils/shortcuts.py", "base_structs/cl_dict.py"],
     [("name parsing and rendering", "fisher/datavector.py"), ("datavector shortcuts", "utils/shortcuts.py")],
     "round-trip monitors over generated selections against a reference renderer",
     "Random selections of 1-10 entries plus every single entry and every ordered pair of entries.")

prop("P03", "Matrix vectorisation algebra is exact for every size",
     "Column stacking and half-vectorisation of (symmetric) matrices are exact inverses of their unstacking for every size; the "
     "elimination, duplication and commutation operators perform exactly the conversions between the full, half and transposed "
     "stackings, and stacks along a multipole axis are handled slice by slice. Inputs are never modified.",
     ["inputs"], "every matrix size and shape up to a bound, random contents and the full unit basis",
     "Tests check one or two small sizes.",
     ["fisher/linalg_tools.py"], [("vec/vecp and operators", "fisher/linalg_tools.py")],
     "algebraic-identity monitors over all sizes", "Complete in the size up to the bound; linear operators decided on the full basis.")

prop("P04", "Multipole binning partitions its range; common multipoles are set intersection",
     "A multipole grid of N bins covers the requested range with adjacent bins whose widths sum to it (constant ratio for "
     "logarithmic, constant width for linear spacing), centres at bin midpoints. Common and exclusive multipoles of a family of "
     "arrays are set intersection and difference, and values picked for them are those of the same observable at the same "
     "multipole, in order, from whichever position they are stored. The block matrix at a multipole holds each observable's block "
     "at its row and column, with the transposed block in the mirrored place.",
     ["inputs", "configurations"], "ranges, spacings, bin numbers, families of partially overlapping multipole arrays",
     "Tests use a single grid and one pair of arrays.",
     ["utils/array_utils.py", "fisher/fisher_utils.py", "fisher/delta_cl.py"],
     [("multipole arrays", "utils/array_utils.py"), ("multipole selection", "fisher/fisher_utils.py")],
     "geometric-invariant monitors and tagged-value selection oracles",
     "Sampled families; values encode (observable, multipole) so a misplaced one is always seen.")

prop("P05", "Quadrature and grid helpers are exact where they must be",
     "Composite Newton-Cotes quadrature of a sampled function equals the exact integral of the piecewise interpolating polynomial "
     "of the requested order for every number of points, leftover points included, along whichever axis is integrated and for "
     "arrays of any rank. Grid helpers (safe grids, unions, unit conversions) return every input value once, ordered, and "
     "conversions undo each other. Unsupported orders and inconsistent sizes are rejected.",
     ["inputs"], "orders, point counts, array ranks and axes, random samples",
     "Tests integrate a couple of smooth functions at one resolution.",
     ["numeric/integration.py", "numeric/general.py", "utils/array_utils.py", "utils/converters.py"],
     [("composite quadrature", "numeric/integration.py")],
     "differential monitor against an exact interpolating-polynomial integral",
     "Orders 1-6, 2-60 points, rank 1-4 arrays.")

prop("P06", "Parameter displacement, reset and persistence follow the step table",
     "Displacing a free parameter by a step moves it to fiducial*(1+factor*step), or factor*step when the fiducial is zero, and "
     "resetting returns every parameter to its fiducial, over any history of displacements; nothing else changes except that in a "
     "flat universe matter and dark-energy densities keep summing to one. Fixed parameters, and flat configurations whose two "
     "densities are both free or do not close, are refused. Saved and reloaded parameter sets are equal to the original in every "
     "field and in order.",
     ["histories", "configurations"], "histories of displace/reset/save/load on random parameter sets",
     "Tests displace single parameters once; the guarantee is about histories, zero fiducials and flatness coupling.",
     ["cosmology/parameter.py"], [("displacement and step table", "cosmology/parameter.py")],
     "shadow-model monitor over random histories", "Sampled histories; the shadow model is an independent statement of the rule.",
     state=[("step table", "signed step number to relative displacement", "cosmology/parameter.py")])

prop("P07", "Derivatives of the spectra follow the slope rule, element by element",
     "The numerical derivative of every spectrum element is the least-squares slope over the widest symmetric set of displaced "
     "points that is straight within 1% (never fewer than the innermost three), whatever the sign, size or neighbours of the element, "
     "the order in which displaced files are found and the number of steps; it is zero where the element does not vary or the "
     "parameter belongs to a probe the pair does not involve. Scalar and vectorised evaluation agree, the analytic bias "
     "derivative agrees with differencing the spectra, and derivatives are collected and reloaded for their own parameter only.",
     ["inputs", "configurations"], "random spectra, step tables and fiducials; directories of displaced spectra in random order",
     "Tests use smooth, nearly linear positive spectra with a fixed table, for which every window gives the same slope.",
     ["derivatives/differentiator.py", "derivatives/cl_derivative.py", "utils/filesystem_utils.py"],
     [("SteM window rule", "derivatives/differentiator.py"), ("derivative collection", "derivatives/cl_derivative.py")],
     "differential monitor against an independent scalar statement of the window rule",
     "Elements within 1e-6 of the threshold are undecided; piecewise analytic derivative within grid accuracy.")

prop("P08", "Background cosmology, distances, growth and filtered variance are those defined",
     "For every dark-energy, curvature and expansion history a cosmology gives, at any redshift and on any grid, the expansion rate, "
     "comoving distances, matter density, growth factor and rate that its current parameter values define; scalar, grid and reloaded "
     "evaluations agree. The filtered variance and the stored derived quantities are those of the matter spectrum held. Parameter sets "
     "with dark energy outside the accepted range or curved where flatness is declared are refused, not silently evaluated.",
     ["inputs"], "CPL parameters, curvature, fiducial/current values, scalar redshifts and grids of every spacing",
     "Tests compare with stored arrays of the fiducial cosmology on one grid.",
     ["cosmology/cosmology.py", "numeric/general.py", "cosmology/power_spectrum.py"],
     [("background and growth", "cosmology/cosmology.py"), ("adaptive integration", "numeric/general.py")],
     "differential monitors against closed forms and an independent quadrature",
     "Random cosmologies; agreement within 1e-7 for distances.")

prop("P09", "Redshift densities are normalised, convolved and conserved per bin",
     "A tomographic density is, bin by bin, the galaxy distribution convolved with the instrument response (or the given binned input), "
     "normalised to one over its domain and zero outside it; the share of galaxies and surface density per bin follow the input "
     "distribution and sum over the bins. Densities of two probes give the overlap noise of their common galaxies, and densities "
     "reloaded from their files are the same; products holding different arrays compare unequal.",
     ["inputs"], "distributions, domains, responses, bin edges, grids, pairs of probes",
     "Tests compare one stored density.",
     ["cosmology/redshift_density.py"], [("convolution, normalisation, surface density", "cosmology/redshift_density.py")],
     "differential monitors against error-function convolutions", "Random responses at least 0.02 wide.")

prop("P10", "Bias models give each bin its own parameters at every redshift",
     "Each bias model evaluates, for every bin and redshift, the value its definition gives from the parameters of that bin, whatever the "
     "order the parameters are stored in and however many bins there are. Nuisance and cosmological values changed through the current "
     "parameter set are the ones used, nothing else changes, and models that are unknown or lack parameters are refused.",
     ["inputs", "configurations"], "models, 1-24 bins, storage orders, grids inside, outside and on the bin edges",
     "Tests evaluate ten fixed bins at most at stored values.",
     ["cosmology/bias.py"], [("bias models", "cosmology/bias.py")],
     "differential monitors against the model definitions", "Void model decided for its stated quadrature rule.")

prop("P11", "Weight functions and kernels follow their definitions from the input files",
     "Every clustering, void and lensing weight is its definition applied to the density, bias, intrinsic-alignment and cosmology in "
     "force: current parameter values, the requested grid and only the terms switched on. Kernels are the products of the two "
     "weights with the geometrical factor of the cosmology, and exchanging the probes transposes the bins. Evaluating on another grid, at a "
     "single redshift or after another evaluation gives the same function.",
     ["inputs", "configurations", "histories"], "surveys, bins, cosmologies, bias models, intrinsic alignment, grids, evaluation orders",
     "Tests compare stored arrays of one survey.",
     ["cosmology/weight_functions.py", "cosmology/kernel_functions.py", "main/cl_core.py"],
     [("weights", "cosmology/weight_functions.py"), ("kernels", "cosmology/kernel_functions.py")],
     "differential monitors against an independent integrator over the input files", "Lensing efficiency within the grid accuracy (2e-3).")

prop("P12", "Angular spectra are the Limber integrals of their own pair of probes",
     "Every element of every angular power spectrum is the redshift integral of its two weights against the matter spectrum at "
     "k=(l+1/2)/r, at the multipoles of that pair. Switching off off-diagonal elements only zeroes them, the void cut only removes what "
     "exceeds its wavenumber, exchanging the probes transposes, and a spectrum does not depend on which other probes or spectra "
     "are computed with it.",
     ["inputs", "configurations"], "probes, bins, multipole ranges, integration methods, spline orders, cosmologies",
     "Tests compare stored spectra of one survey with one method.",
     ["cosmology/c_ells.py", "main/cl_core.py"], [("Limber integration", "cosmology/c_ells.py"), ("collection", "main/cl_core.py")],
     "differential and metamorphic monitors against closed-form integrals", "Small surveys; within 1e-3 grid accuracy, exact for metamorphic relations.")

prop("P13", "Noise enters only where it belongs and noisy spectra scale with sky and bins",
     "The noise of an auto-spectrum is one over its galaxies per bin on the diagonal (times the ellipticity dispersion squared for lensing, "
     "reduced to the spectroscopic share where requested), zero for cross pairs, or exactly what a given noise file holds. A noisy "
     "spectrum is (signal + noise)/sqrt(bin width x sky fraction) at the multipoles of its own pair. Joint blocks of several probes hold each "
     "pair at its place on the common multipoles, and stored collections reload unchanged.",
     ["inputs", "configurations"], "surveys, bins, multipole grids, sky fractions, noise sources",
     "Tests compare one survey with stored arrays.",
     ["fisher/delta_cl.py", "main/cl_core.py", "main/fisher_core.py"],
     [("shot noise and noisy spectra", "fisher/delta_cl.py"), ("noise file in the Fisher step", "main/fisher_core.py")],
     "differential monitors against number counts of the input files", "Random surveys and spectra.")

prop("P14", "The covariance of a data vector is the four-field Gaussian covariance",
     "Every element of the covariance of a data vector is (D_AC D_BD + D_AD D_BC)/(2l+1) of the noisy spectra of its two observables, at "
     "exactly the multipoles common to the spectra involved, whatever the order or notation of the entries and the order in which each "
     "pair is stored. It is symmetric, positive definite and is the scatter found in simulated Gaussian skies. Inputs are not modified.",
     ["inputs", "configurations"], "probes, bins, entry orders, pair orders, notations, partially overlapping multipoles",
     "Tests compare a few data vectors of one survey with stored matrices.",
     ["fisher/fisher_evaluator.py", "fisher/linalg_tools.py", "utils/shortcuts.py"],
     [("covariance blocks", "fisher/fisher_evaluator.py")],
     "differential monitor against element-wise definition, Monte Carlo oracle over simulated skies", "Random joint spectra of one to four probes.")

prop("P15", "Fisher matrices hold the information of their data, each multipole counted once",
     "The Fisher matrix of a data vector is the Gaussian information of its spectra about exactly its free parameters: symmetric, positive "
     "semidefinite, independent of entry order, pair order and notation, equal to the trace form for a complete set of pairs, never "
     "smaller when observables are added. Multipoles held by one auto-spectrum only enter through it, once. Derivatives whose "
     "multipoles disagree with the covariance are refused, and the Fisher step writes each data vector once and resumes to the same result.",
     ["inputs", "configurations", "histories"], "probes, bins, parameters, data vectors, per-probe multipoles, interrupted passes",
     "Tests compare three data vectors of one survey with stored matrices.",
     ["fisher/fisher_evaluator.py", "fisher/fisher_utils.py", "main/fisher_core.py"],
     [("Fisher evaluation", "fisher/fisher_evaluator.py"), ("Fisher step", "main/fisher_core.py")],
     "differential monitors against definition and trace form, metamorphic and history monitors", "Random joint spectra of one to four probes.")

prop("P16", "Fisher matrices behave as labelled information over any history of operations",
     "Through any history of sums, differences, copies, fixing, marginalizing, slicing and priors, a Fisher matrix holds for each pair of its "
     "parameters the element that operation defines, by label, absent parameters carrying no information; operands and other matrices are never "
     "modified. Its errors, correlations, figure of merit, ellipses and tables always belong to its current content, never to an earlier state. "
     "Unknown parameters are refused.",
     ["inputs", "histories"], "random histories over pools of matrices of different parameters in random storage orders",
     "Tests apply single operations to one stored matrix.",
     ["fisher/fisher_matrix.py", "fisher/fisher_analysis.py", "fisher/fisher_utils.py"],
     [("algebra and cached inverse", "fisher/fisher_matrix.py"), ("analysis tables and ellipses", "fisher/fisher_analysis.py")],
     "shadow-model monitor compared after every operation of random histories", "Positive definite matrices, up to about fifteen parameters.",
     state=[("matrix, inverse, correlation, parameter sets", "current content and quantities derived from it", "fisher/fisher_matrix.py")])

prop("P17", "A Fisher matrix file is complete or absent, and reads back as it was",
     "A Fisher matrix written in any supported format reads back with the same name, parameters in the same order, elements and parameter kinds, "
     "in files and in whole results directories. Different data vectors and combinations never share a file, and existing files are only "
     "replaced when asked. Whenever the writing process dies or a write fails, the target holds the previous content in full, or the new "
     "content in full, or nothing if there was nothing.",
     ["inputs", "crash_points", "fault_sequences"], "matrices, names of all data vectors and combinations, formats, every line of a write as crash and fault point",
     "Tests write one matrix once, and never interrupt it.",
     ["fisher/fisher_matrix.py", "fisher/fisher_analysis.py", "file_io/hdf5_io.py"],
     [("Fisher file output", "fisher/fisher_matrix.py"), ("results directories", "fisher/fisher_analysis.py")],
     "crash and fault injection at every executed line with an all-or-nothing state monitor, round-trip monitors", "A crash is the death of the process, not of the machine.")

prop("P18", "Angular spectra and weights survive storage unchanged and usable",
     "A collection of spectra saved to a file and reloaded holds the same pairs, spectra, multipoles, kernels, weights, densities and biases, whatever the "
     "probes, and gives the same results in every later step; saving again gives the same file content. Spectra without kernels, single "
     "spectra and files of earlier releases are read as well. A file of the wrong mode, root or content is refused rather than misread.",
     ["inputs", "histories"], "surveys, probes, kernels present or not, save/reload histories, current and older layouts",
     "Tests reload one stored file.",
     ["cosmology/c_ells.py", "cosmology/weight_functions.py", "file_io/hdf5_io.py", "file_io/retro_comp.py"],
     [("spectra files", "cosmology/c_ells.py"), ("generic HDF5 input/output", "file_io/hdf5_io.py")],
     "round-trip and history monitors, independent writers and readers of the formats", "Files are those the package itself writes, plus independently written older layouts.")

prop("P19", "Final results follow from the base Fisher matrices, wherever they are collected",
     "For each cosmology and treatment of nuisance parameters, the final results hold every base matrix and every listed combination whose terms exist, "
     "with the matrices, errors, relative errors and figures of merit these definitions give, over exactly the free parameters of that cosmology; base files "
     "are untouched and nothing is overwritten unless asked. Collecting runs finds exactly the run directories, and its tables, selections, "
     "replacements and reloaded analyses hold each run's own numbers under its own options.",
     ["inputs", "histories"], "sets of base matrices, free parameters, cosmologies, treatments, groups of runs, selections",
     "Tests do not cover the combination or the collection of results over runs.",
     ["fisher/final_results_core.py", "fisher/fisher_analysis.py", "fisher/results_collector.py", "utils/dir_explorer.py", "utils/workspace.py"],
     [("final results", "fisher/final_results_core.py"), ("collection over runs", "fisher/results_collector.py"), ("directory search", "utils/dir_explorer.py")],
     "differential monitors: all results recomputed from the base matrices", "Base matrices of a run share its free cosmological parameters.")

prop("P20", "Configured results and figures show the constraints of their matrices",
     "For a results configuration, the analyses of each present cosmology hold the listed matrices and sums restricted to its parameters, with the errors, "
     "relative errors and correlations these imply, and the results directory written from them reads back to the same. The figures drawn show, for exactly the "
     "requested parameters, ranges and settings, the Gaussian, confidence interval and ellipse of every matrix in its own colour, and the correlations. "
     "Parameters or matrices that do not exist are refused.",
     ["inputs", "configurations"], "base matrices, cosmologies, parameter subsets and orders, sums, plot settings and ranges",
     "Tests do not cover configured results or figures.",
     ["fisher/fisher_results.py", "fisher/fisher_plot.py", "fisher/fisher_analysis.py", "plot_utils/misc.py"],
     [("configured results", "fisher/fisher_results.py"), ("contour figures", "fisher/fisher_plot.py")],
     "differential monitors: results recomputed from base matrices, artists read back from the live figures", "Figures are judged by their artists, not by pixels.")

prop("P21", "Configurations say what their files say, and are refused when they cannot",
     "A forecast configuration loaded from its file holds, for each probe present, exactly the settings, bins, multipoles, files and nuisance parameters "
     "given there, all other parameters and the survey settings included; two are equal exactly when they describe the same forecast; and one edited and written reads back as edited. "
     "Task configurations, ini files, path lists and command lines give the same settings with the same types. Missing files and "
     "contradictory or unknown options are refused.",
     ["inputs", "configurations"], "surveys, probe subsets, file placements, single-field changes, edits, ini files and command lines",
     "Tests load two stored configurations.",
     ["config/forecast_config.py", "config/probe_config.py", "config/main_config.py", "config/cmd_line.py", "file_io/json_io.py"],
     [("forecast configuration", "config/forecast_config.py"), ("task configurations", "config/main_config.py"), ("command line", "config/cmd_line.py")],
     "differential monitors against an independent reading of the same files, metamorphic equality monitors", "Nuisance parameters of different probes have different names.")

prop("P22", "A run directory keeps its inputs and products apart and finds them again",
     "A prepared run directory holds a copy of every input file it was given, none replacing another, and returns each unchanged under whatever path the directory "
     "is reached by or moved to. Job directories, their parameters, steps and products, and linked external directories are found for exactly the task, parameter and "
     "step asked for, never those of another, and whatever is missing or ambiguous is reported rather than guessed.",
     ["inputs", "histories"], "names of input files, parameters and steps, preparations repeated, directories moved, linked and reached by relative paths",
     "Tests look into one stored run directory.",
     ["utils/workspace.py", "utils/filesystem_utils.py"],
     [("workspace", "utils/workspace.py"), ("file system helpers", "utils/filesystem_utils.py")],
     "shadow-model monitor of the directory contents over histories of preparations and moves", "Parameter names are made of letters and digits.")

prop("P23", "A forecast runs every job it needs, in order, and stops at the first failure",
     "Submitting a forecast prepares and runs, for the tasks asked for, one job for the fiducial case and for each step of each parameter in use, each with that case's own "
     "cosmology, the given configurations and input directories, then each Fisher matrix once, then the results, no stage before the one it needs; external directories replace tasks. "
     "When any job fails the run stops, reports the failure and never looks complete. Metadata, run names and products of earlier runs in the same place stay true.",
     ["inputs", "configurations", "fault_sequences", "histories"], "surveys, tasks, external directories, flags, failing call, failing writes and repeated runs",
     "Tests do not execute a run.",
     ["main/orchestration.py", "main/task_runners.py", "main/seyfert_core.py", "main/cl_core.py", "utils/workspace.py"],
     [("orchestration", "main/orchestration.py"), ("task runners", "main/task_runners.py"), ("the scripts", "main/orchestration.py")],
     "trace monitors: the log of recorded program calls against the jobs the configuration asks for, fault injection at every call", "Started programs are stand-ins that record and can fail.")

prop("P24", "Batch jobs are submitted as asked, all waited for, and failures noticed",
     "Each batch submission carries the command, queue, memory and cores asked for and logs of its own. Waiting ends only when every job of the group has been seen done, when one has "
     "failed, which is always raised, or when the time limit is over, under any schedule of pending, suspended, unlisted and forgotten jobs. Reports of tasks and runs state the "
     "outcome, times, hosts and sizes that the files of the jobs show.",
     ["schedules", "inputs", "fault_sequences"], "schedules of a stand-in scheduler, users, queues, ids, failing jobs, outcomes left in job directories",
     "Tests cannot talk to a batch scheduler.",
     ["main/bsub_utils.py", "main/task_runners.py", "main/report_maker.py", "main/orchestration.py"],
     [("batch interface", "main/bsub_utils.py"), ("report makers", "main/report_maker.py")],
     "offline checker over the event log of a stand-in scheduler under virtual time", "bsub and bjobs are stand-ins with LSF formats; an ended job is listed at least once.")

prop("P26", "A whole forecast gives the constraints its inputs imply by every route",
     "The Fisher matrices that a forecast leaves equal the information carried by its data vectors, as computed independently from spectra evaluated one by one at each displaced "
     "parameter; run in one process, as separate jobs or in a batch job they agree, results included. A forecast killed or failing at any point and resumed, or repeated, leaves the "
     "same products as one never interrupted, and external directories are used, linked and never modified.",
     ["inputs", "configurations", "crash_points"], "surveys, data vectors with and without voids, routes, interruption lines, altered external products",
     "Tests do not execute a forecast.",
     ["main/seyfert_core.py", "main/cl_core.py", "main/cl_derivative_core.py", "main/fisher_core.py", "fisher/final_results_core.py", "main/orchestration.py"],
     [("the forecast", "main/seyfert_core.py"), ("job routes", "main/orchestration.py"), ("results", "fisher/final_results_core.py")],
     "reference-model monitor of the information, crash and fault injection at executed lines, metamorphic monitors across routes and external products",
     "Power spectra come from an external directory; pandas' HDF5 files are pickled where pytables is missing.")

prop("P27", "Matter power spectra are those of the cosmology asked for, by any solver",
     "The spectra obtained through CAMB or CLASS, by a job, in process or in an interactive session, are those of exactly the asked densities, curvature, neutrino mass, dark energy, "
     "tilt and sigma8, in inverse megaparsec units on the configured redshifts however many there are, all other solver settings kept. Every job of a displaced parameter stores that "
     "cosmology with its expansion, distances and growth, and a job killed at any point leaves no product or a complete one.",
     ["inputs", "configurations", "crash_points"], "flat and curved cosmologies, neutrino masses, redshift grids, solver settings, displaced parameters, interruption lines",
     "Tests mock the solver or compare one set of parameters.",
     ["cosmology/boltzmann_solver.py", "cosmology/power_spectrum.py", "main/cl_core.py", "seyfert.py", "cosmology/cosmology.py"],
     [("solver translation", "cosmology/boltzmann_solver.py"), ("matter power spectrum", "cosmology/power_spectrum.py"), ("spectra in process", "main/cl_core.py"), ("sessions", "seyfert.py")],
     "reference-model monitors over instrumented solver stand-ins, differential monitor against CAMB's other interface, crash injection",
     "camb and classy answer as their stand-ins do; CLASS itself is not installed.")

prop("P28", "Comparing runs measures how their products differ, element by element",
     "A run loaded from its directory, whichever release laid it out and whatever products are missing, holds exactly the power spectra, cosmologies, angular spectra, derivatives, "
     "Fisher matrices and results stored for each parameter and step, the central ones included. Comparing two runs gives for every product present in both the percentage difference "
     "of each element relative to its mean absolute value, warns of exactly those beyond the threshold, and comparisons written and read back are the same.",
     ["inputs", "configurations"], "run directories of several releases, missing products, changed elements, jobs and parameters",
     "Tests do not load or compare runs.",
     ["utils/run_loader.py", "utils/comparison_utils.py", "numeric/general.py", "file_io/retro_comp.py"],
     [("loading and comparing runs", "utils/run_loader.py"), ("percentage differences", "numeric/general.py"), ("differences of spectra", "utils/comparison_utils.py")],
     "reference-model monitor of loaders and metrics over generated runs", "The name of a run directory contains the version that wrote it.")

prop("P25", "Matrices and spectra of other codes enter with their own labels and units",
     "A Fisher matrix, matter spectrum, angular spectrum or derivative read from the text files of another code has every element under its own parameter, pair of bins, multipole, "
     "wavenumber and redshift, whatever the order of columns, rows and headers, in the units used here, and nothing is written over. Converted sets have one directory per displaced "
     "parameter, holding the cosmology of that displacement; incomplete or inconsistent sets are refused, and comparisons of codes give each the errors of its own matrix.",
     ["inputs", "configurations"], "text layouts, parameters, displacements, orders of rows and columns",
     "Tests read one file of each kind or none.",
     ["file_io/ext_input.py", "utils/ist_comparison.py", "fisher/fisher_matrix.py"],
     [("external inputs", "file_io/ext_input.py"), ("comparison of codes", "utils/ist_comparison.py")],
     "reference-model monitor: files written by an independent writer, every element read back", "External matter spectra are in units of h; external angular spectra have 10 and 4 bins.")

prop("P29", "Tables, names and figures made of the results say what the results say",
     "Every parameter, bias, probe and data vector has its own TeX form that leads back to it, and unknown ones are refused; durations and dates keep their value. Tables selected, "
     "ordered, compared, completed with the four-bin values of hybrid data vectors, and written as text, LaTeX or spreadsheet hold for every row the numbers and signed gains of that "
     "row; bar charts, gain curves, panels of spectra and maps draw exactly those numbers under those labels, and analyses of several runs keep the errors of each.",
     ["inputs", "configurations"], "result tables, selections, references, names, numbers of bins",
     "Tests do not cover tables and figures.",
     ["utils/tex_utils.py", "utils/formatters.py", "utils/table_utils.py", "notebook_helpers/table_helpers.py", "notebook_helpers/barplots.py", "notebook_helpers/load_helpers.py",
      "plot_utils/cl_plot.py", "plot_utils/misc.py"],
     [("names", "utils/tex_utils.py"), ("tables", "notebook_helpers/table_helpers.py"), ("bar charts", "notebook_helpers/barplots.py"), ("panels of spectra", "plot_utils/cl_plot.py"),
      ("several runs", "notebook_helpers/load_helpers.py")],
     "reference-model monitor: cells, text and figure artists recomputed from the random tables they were made of",
     "A result table has one row per data vector, number of bins and options.")

prop("P30", "The configuration window saves the forecast it shows",
     "Whatever is set in the window, in any order, the file it saves has for every field the value shown: sky fraction, geometry, parameters, displacements and, for each probe, its "
     "presence, files, bias and specific settings; a file of multipoles counts only when its box is ticked and a file is named. The saved file loads as the same forecast as one written "
     "by hand with the same values, every nuisance parameter belonging to its probe. The program asks for the name, adds version and date unless told not to, and writes one file.",
     ["inputs", "configurations"], "settings of the window, orders of setting them, names, options of the program",
     "Tests do not open the window.",
     ["gui/interface_window.py", "gui/gui_core.py", "config/probe_config.py", "file_io/json_io.py"],
     [("the window", "gui/interface_window.py"), ("loading", "config/probe_config.py")],
     "reference-model monitor: the real window without a display, driven at random, and its program in a process of its own",
     "The Qt platform plugin without a display behaves as one with.")
