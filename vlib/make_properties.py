"""Writes /verif/properties.jsonl (kept as code so that the statements stay readable)."""
import json, os
E = "harmonisation_eiv/harmonisation/"
IO = E + "core/matchup/matchupIO/"
PR = E + "core/matchup/matchupProcessing/"
TB = E + "core/matchup/matchupToolbox/"
HP = TB + "harmonisation/harmonisationProcessing/"
F = "harmonisation_meiv_demo/src/main/fortran/gpl/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)


prop("C01", "Opened match-up data keeps every measurement in its right block",
     "Opening match-up files (one file, a list of files in order, a directory read in file-name order, a list of directories in order) gives a data set in which every measurement of every file appears exactly once, at single precision and in file row order, in one contiguous block per sensor, match-up series and covariate, the blocks being ordered by covariate, then series, then sensor within the pair. "
     "The index that comes with it (series sizes and cumulative sizes, sensor names in order of first appearance, covariates per sensor, the sensor pair of each series, and the sensor, series, covariate, size and boundaries of each block) describes exactly that layout for any number of series, any sharing of sensors between series and differing covariate counts. "
     "The adjustment values K appear unchanged at double precision, series after series; a path that is neither a file nor a directory is not opened as data.",
     ["inputs", "configurations"], "all sets of match-up files: 1..N series, any sensor graph, any M, any number of covariates per sensor, any way of naming the files",
     "The reader tests open two or three fixed files with a handful of rows and fixed sensor pairs; the layout must hold for every number and shape of series.",
     [IO + "MatchUpReader.py"], [("block index construction and value loading", IO + "MatchUpReader.py:openMatchUp"), ("index lists", IO + "MatchUpReader.py:get_idx_from_nc_datasets")],
     ["the object returned by opening files that the workload generated with unique, traceable values"])
prop("C02", "Opened uncertainties and error-correlation matrices match the file",
     "Each measurement block carries the error-correlation form its file declares for that covariate (independent, independent+systematic, structured, structured+systematic) with exactly that file's random and systematic uncertainties for it, and the uncertainty of K is, per match-up, the root of the sum of squares of its random and systematic parts. "
     "A structured block leads to the weighting matrix and the uncertainty vector that its own file assigns to that covariate, equal entry for entry to what the file stores, whatever matrices other covariates or other series use or share, and whichever subset of the stored matrices is in use. "
     "Blocks of the same sensor and covariate share one systematic-effect number (numbered from 1 without gaps), different sensors or covariates never share one, and blocks without a systematic part have none; with uncertainty reading switched off none of this is present while the measurements are unchanged.",
     ["inputs", "configurations"], "all mixes of the four uncertainty types over series and covariates, all sharing patterns of weighting matrices and uncertainty vectors",
     "Tests use one or two fixed files in which matrices 1 and 2 are used in order; sharing, out-of-order use and several series with matrices are not sampled.",
     [IO + "MatchUpReader.py", IO + "Uncertainty.py"], [("uncertainty and matrix loading", IO + "MatchUpReader.py:open_unc_from_nc_datasets"), ("matrix numbering", IO + "MatchUpReader.py:open_matrix_idxs_from_nc_datasets")])
prop("C03", "Per-series accessors return exactly that sensor's data of that series",
     "For every series and each of its two sensors, the measurement, time, along-track and across-track accessors return exactly that sensor's column of that series' file in row order (times as whole seconds since the 1970 epoch in local time, indices as whole numbers), and the additional-data accessor returns the named extra per-match-up variable for the series asked for or for all series in order. "
     "Where a file lacks an index or extra variable that another file has, and where an extra variable holds the fill value -1e30, the value reads as NaN; an index no file has is reported as absent, and minimum/maximum accessors return the extremes of the same data. "
     "Asking for a sensor that is not part of the series raises an error instead of returning another sensor's data, and the printed summary names every series with its own sensors, size and values.",
     ["inputs", "configurations"], "all data sets (sensors appearing as first or second of a pair, present and missing optional variables), all series/sensor/variable arguments",
     "Tests call a few accessors with one argument set on one fixed data set.",
     [IO + "MatchUp.py", IO + "MatchUpReader.py"], [("accessors", IO + "MatchUp.py"), ("time, index and additional data loading", IO + "MatchUpReader.py:open_time_from_nc_datasets")])
prop("C04", "Match-up files written by the package and tools read back unchanged",
     "A match-up file written from arrays, by the package's writer or by the command-line tools' writers, holds every array it was given (measurements, random and systematic uncertainties, uncertainty types, K and its uncertainties, both times, extra variables) under its own name, sensor and shape, to the precision of the stored type, and opening it gives the same data set. "
     "Weighting matrices and uncertainty vectors turned into file variables and written or appended to a file read back as the same matrices in the same numbering with the same zero/non-zero structure, for any number of matrices of differing sparsity, and appending them changes nothing else in the file.",
     ["inputs"], "all array shapes and values representable in the format; all lists of sparse weighting matrices and uncertainty vectors",
     "The writer test only checks a stub; tool tests compare with fixed expected arrays and never read the result back.",
     [IO + "MatchUpWriter.py", "tools/W_matrix_functions.py", "tools/AVHRR_to_updated_spec.py"], [("package writer", IO + "MatchUpWriter.py:write_input_file"), ("W variable packing and writing", "tools/W_matrix_functions.py")])
prop("C05", "Transformation to normalised independent variables is faithful and invertible",
     "Transforming a data set gives, for independent and independent+systematic blocks, each value divided by its random uncertainty; for structured blocks one variable per entry of the uncertainty vector such that the weighting matrix applied to (vector x variables) reproduces the block whenever each match-up adds at least one new underlying measurement; for K each value divided by its uncertainty; plus one trailing zero-valued variable per distinct systematic effect. "
     "The reverse transformation is the exact inverse: it restores values, K, sizes and order to single-precision accuracy, and for arbitrary transformed values it returns random uncertainty x variable plus systematic uncertainty x the variable of that block's own systematic effect (inside the weighting matrix for structured blocks). "
     "Parameters, sensor models, uncertainties, times and track indices are carried along and the input data set is not modified.",
     ["inputs", "configurations"], "all data sets mixing the four uncertainty types, any number of shared systematic effects, weighting matrices of any banded shape",
     "Tests transform one small fixed data set and compare with stored arrays.",
     [PR + "transform2normind/Transform2NormInd.py"], [("forward transform", PR + "transform2normind/Transform2NormInd.py:run"), ("reverse transform", PR + "transform2normind/Transform2NormInd.py:reverse")])
prop("C06", "Independent sampling never keeps two correlated match-ups and keeps rows intact",
     "Sampling a data set keeps, per series, at most the requested fraction of match-ups (capped overall by the maximum sample size), each an original match-up appearing once, in increasing order when match-ups are dropped at random, and every per-match-up quantity (each covariate, K and its uncertainty, times, track indices) is taken from the same original match-ups. "
     "No two kept match-ups of a series share an underlying measurement in any weighting matrix used by that series, and when the fraction does not bind no further match-up could have been kept by the first-come selection. "
     "Every sampled block is independent: its uncertainty is the original random uncertainty, or for structured blocks the root mean square of the underlying uncertainties of that match-up; sizes and index agree with the data and the input data set is not modified.",
     ["inputs", "histories"], "all data sets, sampling fractions, maximum sizes and random states",
     "The sampler draws at random and tests look at one fixed data set with fixed fractions.",
     [PR + "sample2ind/Sample2Ind.py", PR + "sample2ind/cython_lib_sample2ind.pyx"], [("row selection", PR + "sample2ind/cython_lib_sample2ind.pyx:get_sample_idxs"), ("sampling of each quantity", PR + "sample2ind/Sample2Ind.py:run")])
prop("C07", "Simulated match-ups fill exactly the range of each block",
     "Simulating a data set with n samples per series yields, for every block and for K of every series, n evenly spaced values that run from that block's smallest to its largest value. "
     "The new index describes n match-ups in every series and every block with matching boundaries, sensors, series and covariates unchanged, parameters and models are carried along, and the input data set is not modified.",
     ["inputs", "configurations"], "all data sets and sample numbers",
     "Tests use one fixed data set and one sample number.",
     [PR + "simulate_matchup/SimulateMatchUp.py"], [("simulation", PR + "simulate_matchup/SimulateMatchUp.py:run")])
prop("C08", "Measurands and K are evaluated with each sensor's own model and parameters",
     "After sensor data are attached to a data set, every sensor's parameters and constants are stored in order, labelled with their sensor, for exactly the sensors in the data set, and every sensor gets its own measurement model and its own adjustment model (identity when none is given). "
     "Evaluating the measurand, the adjusted measurand or K for all series or any chosen subset gives, per match-up and sensor of the pair, the value of that sensor's model at that match-up's own state values, track indices, time, parameters and constants, in the order of the series; K is the adjusted measurand of the second sensor minus that of the first. "
     "With a parameter covariance matrix, the measurand uncertainty is the root of the propagated parameter variance for that sensor, and derivatives when asked for are those the sensor's model returns.",
     ["inputs", "configurations"], "all sensor graphs, parameter and constant counts per sensor, series subsets, sensor-data orderings",
     "The tests of this module need data files and names that the pinned build does not import; none of it runs today.",
     [TB + "utils/matchup_maths.py", IO + "MatchUpReader.py", IO + "MatchUp.py"], [("evaluation", TB + "utils/matchup_maths.py"), ("sensor data attachment", IO + "MatchUpReader.py:extract_sensor_data")])
prop("C09", "Sensor models return derivatives consistent with their measurand",
     "For every registered sensor data set the sensor model, called with the parameters and constants registered for a sensor, returns one measurand per match-up, that of its measurement equation, and a derivative matrix whose columns are the partial derivatives of that measurand with respect to each state variable and then each calibration parameter; each row depends on that match-up's inputs only, and reference sensors return their input radiance and no derivatives. "
     "The registry lists each sensor data set name once, every listed name can be retrieved, each retrieval gives the same data (with the coefficients tabulated for the channel and sensor), and an unknown name is refused.",
     ["inputs", "configurations"], "all registered sensor data sets and sensors, all physically plausible state values, parameters and constants",
     "The two sensor-model tests in the tree evaluate one point each and are not among those that run.",
     [E + "sensor_data/SensorDataFactory.py", E + "sensor_data/AVHRR/AVHRR_sensor_models.py", E + "sensor_data/HIRS/HIRS_sensor_models.py", E + "sensor_data/MW/MW_sensor_models.py"], [("models", E + "sensor_data"), ("registry", E + "sensor_data/SensorDataFactory.py")])
prop("C10", "The solver's residuals and Jacobian products are mutually consistent",
     "For any data set, estimate and preconditioner, the solver's residual vector is (estimate minus measured value) for each transformed variable followed by (modelled K minus measured K) over the K uncertainty for each match-up, where the modelled K comes from the sensors' models at the back-transformed estimate. "
     "The solver's forward product is the derivative of that residual along a preconditioned direction, its transposed product is the exact adjoint of the forward product, and the normal product is transpose after forward, for all four uncertainty types and shared systematic effects. "
     "The compiled and the interpreted back-transformations of a sensor's state data agree with each other and with the reverse data transformation.",
     ["inputs", "configurations"], "all data sets mixing uncertainty types, sensor graphs with and without reference sensors, all estimates, directions and preconditioners",
     "No test reaches the solver: its module does not import in the pinned build without its package names supplied.",
     [HP + "harmonisation_eiv/GN_algo.py", HP + "harmonisation_eiv/cython_lib_GN_algo.pyx"], [("residuals", HP + "harmonisation_eiv/GN_algo.py:calc_f"), ("Jacobian products", HP + "harmonisation_eiv/GN_algo.py:calc_prod_JPx"), ("compiled back-transformation", HP + "harmonisation_eiv/cython_lib_GN_algo.pyx")])
prop("C11", "The harmonisation solution is the least-squares optimum with its covariance",
     "Running the full solver on a well-posed data set ends at calibration parameters and variable estimates that minimise the sum of squared residuals: the reported cost is that minimum, it never exceeds the starting cost, and on noise-free data the true parameters are recovered whatever the (nearby) starting point and preconditioner. "
     "The reported parameter covariance is symmetric, positive definite and equal to the parameter block of the inverse normal matrix at the solution independent of the preconditioner used, and is zero when not requested. "
     "Reported residuals are in the original units and layout, degrees of freedom are variables minus match-ups minus parameters, and one fitted systematic error, labelled with its sensor, is reported per systematic effect.",
     ["inputs", "configurations"], "all well-posed data sets (linear and mildly nonlinear sensor models, all uncertainty types), starting points and preconditioners",
     "No test runs the solver; optimality and covariance are properties of whole runs over whole data sets.",
     [HP + "harmonisation_eiv/GN_algo.py", HP + "harmonisation_eiv/HarmonisationEIV.py", E + "tools/HarmonisationOp.py"], [("Gauss-Newton iteration", HP + "harmonisation_eiv/GN_algo.py:run"), ("covariance evaluation", HP + "harmonisation_eiv/GN_algo.py:calculate_parameter_covariance_matrix")])
prop("C12", "Iterative linear solvers return solutions of the stated problem",
     "The bundled least-squares solver (LSMR), given any matrix or operator, right-hand side, damping and tolerances, returns within its iteration limit the damped least-squares solution when it reports convergence, and its reported stop reason, iteration count, residual norm, normal-equation residual and solution norm describe the returned solution; options left out or None take their documented defaults. "
     "The bundled symmetric solver (MINRES), given any symmetric consistent system with optional shift and positive definite preconditioner, returns its solution, and recognises a zero right-hand side, a non-symmetric matrix and a non-symmetric or indefinite preconditioner when asked to check; its converged flag, norms and closing message agree with its stop reason. "
     "Neither modifies its inputs, and reusing one solver object for several systems gives the same answers as fresh objects.",
     ["inputs", "histories"], "all matrices (over-, under- and square-determined, ill-scaled, singular consistent), right-hand sides, options, and sequences of solves on one object",
     "No test exercises the bundled solvers at all.",
     [HP + "harmonisation_eiv/pykrylov_lsmr.py", HP + "harmonisation_eiv/pykrylov_minres.py", HP + "harmonisation_eiv/pykrylov_generic.py", HP + "harmonisation_eiv/pykrylov_tools_utils.py"], [("LSMR", HP + "harmonisation_eiv/pykrylov_lsmr.py:solve"), ("MINRES", HP + "harmonisation_eiv/pykrylov_minres.py:solve")])
prop("C13", "A saved solver state resumes to the same computation",
     "Saving the solver's state at any point (before or after a run, over an existing save or into a new nested directory) and opening it in a solver built on the same match-up files restores the transformed measurements and K, the current variable and parameter estimates, the preconditioner and the index, to single precision. "
     "The restored solver gives the same residuals, Jacobian products, solution and parameter covariance elements as the solver that was saved, to that precision.",
     ["histories", "inputs"], "all data sets and save points, all sequences of save/open/run",
     "No test saves or opens a solver state.",
     [HP + "harmonisation_eiv/GN_algo.py"], [("save and open", HP + "harmonisation_eiv/GN_algo.py:save")])
prop("C14", "The preconditioner run yields the K-only weighted fit and its covariance",
     "The preconditioner fit of an independent or independent+systematic data set returns the calibration parameters minimising the K residuals weighted by the full covariance of K, to which the K uncertainty, every state variable's random uncertainty propagated through the sensor models, and the systematic effects (each shared by all match-ups of its sensor and covariate) contribute. "
     "Its parameter covariance is symmetric positive definite and equals the inverse of the weighted normal matrix at the solution, and on noise-free data the true parameters are recovered.",
     ["inputs", "configurations"], "all such data sets, sensor graphs and starting points",
     "No test runs the preconditioner; its module does not import in the pinned build.",
     [HP + "harmonisation_eiv_pc/pc_algo.py", HP + "harmonisation_eiv_pc/HarmonisationEIVPC.py"], [("weighted fit", HP + "harmonisation_eiv_pc/pc_algo.py:runPC"), ("K covariance factor", HP + "harmonisation_eiv_pc/pc_algo.py:calc_LK")])
prop("C15", "Saved harmonisation results and residuals read back unchanged",
     "Saving a harmonisation result and opening its directory restores the parameters, the sensor each belongs to, the full covariance matrix, cost, degrees of freedom, p-value, additional attributes and additional variables; one residual file is written per match-up series, named after the result and the two sensors, holding that series' K residuals and (when available) each sensor's measurement residuals in its own columns. "
     "Opening with residuals restores every series' K residuals and measurement residuals in their own blocks, with an index that describes them; opening without residuals, or saving without them, leaves the result itself unaffected. "
     "A directory holding no result file, or more than one, is refused with an error rather than read.",
     ["inputs", "configurations", "histories"], "all parameter counts, sensor names, series sets, with and without residuals, attributes and extra variables",
     "Tests of this class need data the build does not ship in a runnable form; they are not among the stable tests.",
     [TB + "harmonisation/harmonisationIO/HarmonisationResult.py"], [("writing", TB + "harmonisation/harmonisationIO/HarmonisationResult.py:save"), ("reading", TB + "harmonisation/harmonisationIO/HarmonisationResult.py:__init__")])
prop("C16", "Time averages and bins account for every value exactly once",
     "Averaging data over hours, days, months or years returns one entry per calendar period, consecutive and without gaps from the first to the last period that has data, stamped with the start of the period; each entry is the mean of exactly the values whose time lies in that period, start included and end excluded, and NaN for a period without values, whatever the order of the input. "
     "Binning Y by X over a range returns, for each of the equal-width bins, its centre and the mean and standard deviation of exactly the Y whose X lies in that bin (lower edge included, upper edge excluded), NaN for empty bins, over the given range or else over the range of X.",
     ["inputs"], "all time series (across month, leap-year and year ends, times on period boundaries, gaps, unsorted), all periods, bin counts and ranges",
     "The two tests average two fixed series by month.",
     [E + "core/utils/stats.py"], [("period averaging", E + "core/utils/stats.py:time_average"), ("binning", E + "core/utils/stats.py:bin")])
prop("C17", "Rolling-average weighting matrices describe the averaging exactly",
     "For match-up times on a scanline grid, the generated weighting matrix has one row per match-up, and row i holds the averaging weights on the columns of the scanlines around that match-up's own scanline in order (equal weights 1/n by default, given weights otherwise), so that rows overlap exactly where two averaging windows share scanlines and each row sums to the sum of the weights. "
     "Columns exist only for scanlines used by at least one match-up, and the uncertainty vector has one entry per column holding that scanline's uncertainty: the single given value, or the uncertainty that the match-up windows give for that scanline.",
     ["inputs"], "all increasing or repeated match-up times incl. gaps, odd window sizes, weights and uncertainties",
     "Tests compare a few fixed time lists with stored matrices.",
     ["tools/generate_w_matrices.py", "tools/pmh2fiduceo.py"],
     [("generation", "tools/generate_w_matrices.py:generate_rolling_average_w_matrix"), ("generation of the PMH tool", "tools/pmh2fiduceo.py:generate_rolling_average_w_matrix")])
prop("C18", "The match-up file checker flags defective files and passes sound ones",
     "The file checker reports no error for a file that follows the match-up file format, with or without weighting matrices. "
     "It reports an error, naming the variable, attribute or covariate concerned, when a required variable or attribute is missing, when a variable has another type or other dimensions than the format's, when both sensors have the same name, when an uncertainty of a covariate or of K is negative or not a number or K has no uncertainty at all, when the numbering, counts, sizes or use of weighting matrices and uncertainty vectors disagree with each other, and when a covariate's uncertainties are zero or non-zero contrary to its declared uncertainty type, in either sensor and in any covariate. "
     "It finishes with a verdict in every such case instead of crashing.",
     ["inputs", "fault_sequences"], "all sound files and all single (and several simultaneous) format faults in them",
     "No stable test feeds the checker with anything but one or two files.",
     ["tools/harmonisation_input_checker.py"], [("checks", "tools/harmonisation_input_checker.py:main")])
prop("C19", "AVHRR conversion keeps, selects and labels match-ups correctly",
     "Converting an AVHRR match-up file writes, for models of three and of four parameters and for each treatment of uncertainties (with systematic effects, without, and without structured effects), a file holding for exactly the valid match-ups (finite averaged uncertainties and, when a limit is given, a brightness temperature not below it) the input's radiances, counts, temperatures, times, K and uncertainties row for row in the same columns and order, with the same sensors, and leaves the input as it was. "
     "Weighting matrices and uncertainty vectors written are those of the kept match-ups' calibration windows, each column uses its own sensor's matrix and its own vector, additional variables hold the input's values for the kept match-ups, every file passes the file checker, and 3.7 um files, parameterisations and treatments never share a place.",
     ["inputs", "configurations"], "all H-format input files: any pattern of valid and invalid match-ups per channel, reference or sensor pairs, all three channels",
     "The two tool tests convert nothing: they check the mask and the directory helper on fixed values.",
     ["tools/AVHRR_to_updated_spec.py"], [("conversion", "tools/AVHRR_to_updated_spec.py:main"), ("validity mask", "tools/AVHRR_to_updated_spec.py:return_valid_averages_mask")])
prop("C20", "Microwave conversion adds weighting matrices without altering the data",
     "Adding weighting matrices to a microwave match-up file leaves measurements, times, K and systematic uncertainties of the copy equal to the input's, marks exactly the averaged calibration columns as structured with zeroed random uncertainty, and leaves the input file untouched. "
     "The matrices written for each sensor are those of the rolling calibration average at that sensor's own match-up times and scanline interval, the uncertainty vectors those of its own averaged columns, and each column refers to its own sensor's matrix and its own vector; a reference sensor gets none.",
     ["inputs", "configurations"], "all microwave match-up files: sensor-sensor and reference-sensor pairs, differing column counts, times and uncertainties",
     "No test runs this tool.",
     ["tools/MW_add_W_matrices.py", "tools/W_matrix_functions.py", "tools/generate_w_matrices.py"], [("conversion", "tools/MW_add_W_matrices.py:run")])
prop("C21", "Brightness temperature and radiance conversions are inverse and monotonic",
     "Converting brightness temperature to radiance and back with the same sensor and channel coefficients returns the starting value, in both directions, for scalars and arrays of any size. "
     "Radiance increases strictly with temperature, every element of arrays of one to three dimensions is converted independently of the others, elements that are not positive and finite come out as NaN, and the band constants used are those published for the sensor and channel asked for, with sensors and channels that have none refused.",
     ["inputs", "configurations"], "all terrestrial temperatures and radiances, all sensors, channels and array shapes",
     "No test covers the conversion.",
     ["tools/convert_bt_to_radiance.py"], [("conversions", "tools/convert_bt_to_radiance.py")])
prop("C22", "The native reader loads exactly the selected match-ups and covariates",
     "The native solver demo's reader, given a match-up file, a sampling step s and optional column selections, loads exactly every s-th match-up starting with the first, with the selected measurement columns of each sensor, times, K and K variance (random plus systematic) of those match-ups. "
     "Each covariate gets the covariance its file declares: squared random uncertainty, plus the systematic uncertainty, or for structured covariates the weighting matrix rows of the selected match-ups with the squared uncertainty vector, under the configured treatment of common effects. "
     "Unacceptable data (non-finite or huge values, zero K uncertainty, non-positive weights, zero underlying uncertainties, numbers, sizes and counts of matrices and uncertainty vectors that contradict each other) stop the program with an error instead of being used.",
     ["inputs", "configurations"], "all match-up files, sampling steps, column selections and switch settings; all kinds of unacceptable values in every checked field",
     "The only native test runs the demo on three fixed files and looks at its exit status.",
     [F + "mod_reader.F90"], [("reading", F + "mod_reader.F90:read_matchup_dataset")])
prop("C23", "Native sparse and banded matrices represent and multiply the stored entries",
     "Building a native matrix (diagonal, sparse or banded weighting matrix) from file arrays in either index base, with columns in any order within a row, and with a row sampling step gives a matrix with exactly the stored entries of the selected rows. "
     "A product with the matrix is therefore the product with the dense matrix. Out-of-range column indices and malformed row pointers are refused with an error, and a full store refuses another matrix (index 0) instead of overwriting one.",
     ["inputs", "histories"], "all sparse matrices in the file format, sampling steps, and sequences of additions and removals",
     "No native unit test exists.",
     [F + "mod_matrices.F90"], [("construction", F + "mod_matrices.F90"), ("products", F + "mod_matrices.F90")])
prop("C24", "Native sensor and match-up registries stay consistent and bounded",
     "Registering sensors and match-up series in any order up to capacity gives consecutive, non-overlapping, gap-free index ranges for their parameters and match-ups in order of registration, and later lookups and setters for each entry return exactly what was stored for it. "
     "Registrations beyond capacity and of duplicate, reversed or invalid sensor pairs are refused (index 0), look-ups and settings with invalid indices stop with an error, and refusals leave existing entries as they were; prior covariance of a sensor is the diagonal of its squared parameter uncertainties and its stored inverse is the inverse (zero in both where no uncertainty is known).",
     ["histories", "inputs"], "all sequences of registrations, settings and lookups, valid and invalid",
     "No native unit test exists; the demo registers three fixed pairs.",
     [F + "mod_sensors.F90", F + "mod_matchup.F90"], [("sensor registry", F + "mod_sensors.F90"), ("match-up registry", F + "mod_matchup.F90")])
prop("C25", "Native result files hold what was computed under the configured names",
     "The native writer stores parameters, their uncertainties, covariance and correlation matrices, sensor names and configurations and fit statistics, and per pair of sensors the K residuals, their weights and uncertainties and the match-up times, exactly as given and each under its own variable with its own unit. "
     "File names are the explicitly configured ones when given and otherwise follow the job, data set and time range, residual file names add the two sensors, so that results that differ in job, data set, time range or one of the sensors never share a file. "
     "Time stamps written are the UTC calendar date and time of the given instant, for all dates.",
     ["inputs", "configurations"], "all result sizes and values, sensor names, job configurations, and all times from 1970 on",
     "The only native test checks that the demo exits with 0.",
     [F + "mod_writer.F90", F + "mod_config.F90", F + "mod_time.F90"], [("writers", F + "mod_writer.F90"), ("names", F + "mod_config.F90:get_parameter_dataset_name"), ("time stamps", F + "mod_time.F90:iso_date_and_time")])
prop("C26", "Native code runs free of memory errors and undefined behaviour",
     "For every accepted configuration and match-up data set, the native demo and the compiled Python extensions never read or write outside an array or string, use freed or uninitialised pointers, or perform undefined arithmetic. "
     "Malformed configurations and data sets (missing files, variables or dimensions, inconsistent sizes, out-of-range matrix numbers) end in a reported error and a non-zero exit status, never in a crash by signal and never in silent success.",
     ["inputs", "configurations", "fault_sequences"], "all accepted configurations and data sets, and all single faults in files and configuration",
     "Tests are built without sanitizers and run on three sound files.",
     ["harmonisation_meiv_demo/src/main/fortran/gpl", HP + "harmonisation_eiv/cython_lib_GN_algo.pyx", PR + "sample2ind/cython_lib_sample2ind.pyx"], [("demo program", F + "demo.F90"), ("netCDF wrappers", F + "mod_nc.F90"), ("assertions", F + "mod_assert.F90")])
prop("C27", "Run options reach the harmonisation run as given",
     "Every solver run option reaches the run as given: input and output directory (absolute for job files), the sensor data registered under the named sensor, preconditioner and solver-state paths, run mode, whether to compute the covariance, log file and verbosity (quiet, normal, verbose); the result is saved in the output directory under a name made of software, job and match-up data set. "
     "Incomplete or contradictory options (a job file together with individual options, or neither complete) are refused with a non-zero exit status before anything runs, and listing the sensors prints every registered sensor data set and exits.",
     ["inputs", "configurations"], "all combinations of command-line options and job files",
     "No test parses options or job files.",
     [E + "tools/common.py"], [("parsing", E + "tools/common.py:parse_cmdline"), ("job file", E + "tools/common.py:read_job_file")])

prop("C28", "A harmonisation run turns match-up files into faithful result files",
     "A complete run of the solver program, from match-up files and a sensor's data set (command line or job file) to files, leaves exactly one result file and one residual file per match-up series in the output directory. The result file holds the parameters that minimise the errors-in-variables cost of those files' data (the true ones for error-free data), in the order and with the sensors of the sensor data, their covariance (or none when not asked for), the minimal cost with its degrees of freedom and the fitted systematic errors; each residual file holds the residuals of K and of every measurement of its own series in file row order. "
     "The preconditioner and solver state it saves lead a second run to the same results, and a run changes no file that was there and writes nowhere but where it was told to.",
     ["inputs", "configurations", "histories"], "all match-up data sets, options and sequences of runs",
     "No test runs the solver from files to files; each step is tested on fixed data alone.",
     [E + "tools/full_eiv_solver.py", E + "tools/HarmonisationOp.py", E + "core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py"], [("program", E + "tools/full_eiv_solver.py:main"), ("operator", E + "tools/HarmonisationOp.py:run")])
prop("C29", "Converted PMH data sets hold the text files' numbers as match-up files",
     "Converting a directory of simulated match-ups in the PMH text format (data_vals.txt, data_pams.txt, data_uncs.txt) writes one match-up file per listed sensor pair, named after the two sensors, with exactly that series' rows: the first sensor's and the second sensor's covariates (the single reference value for sensor 0), K, the stated random and systematic uncertainties and types (R, RS, MA) of each covariate, the stated uncertainty of K, and one scanline between consecutive match-ups; series may differ in size. "
     "Moving-average covariates get the weighting matrix of their window sized by their own series and the stated uncertainty of every averaged line; data without moving averages get no matrices. The true parameters are saved unchanged, the package opens the files, and incomplete directories, unknown kinds and averages that differ in window or uncertainty are refused with an error.",
     ["inputs"], "all data sets in the PMH text format", "The converter has no tests.",
     ["tools/pmh2fiduceo.py"], [("conversion", "tools/pmh2fiduceo.py:run_conversion"), ("text formats", "tools/pmh2fiduceo.py:open_data_uncs")])

prop("C30", "Diagnostic plots show the data set's and the result's own numbers",
     "The plots of a harmonisation (harm_plot, harm_comp_plot and the plotting classes) show what they say: nominal, harmonised and mixed K residuals of every match-up series are the differences of the nominal measurands of the match-up file and of the measurands evaluated with the result's parameters, minus K, whatever was asked for before; every match-up (or an aligned sample of at most ten thousand) is drawn under its own series' label at its own time or measurand. "
     "Monthly means and lines binned by sensor variables or additional variables are the means (with their spreads as error bars) of exactly the match-ups in each bin, also with missing, constant or absent variables and sensors of differing variables; calibration comparisons show each sensor's own difference and uncertainty. The match-up data's own parameters stay as they are.",
     ["inputs", "histories"], "all match-up data sets with nominal measurands and results of their sensors; all orders of requests", "The plotting classes have no tests that run here; a wrong curve looks like a right one.",
     ["harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py", "harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py", "harmonisation_eiv/harmonisation/core/utils/plots.py"],
     [("nominal values and binning", "harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py:plot_Y_X_binned_line"), ("harmonised values", "harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py:get_L1_harm"), ("drawing", "harmonisation_eiv/harmonisation/core/utils/plots.py:plot_scatter")])

prop("C31", "The native program is configured as its namelists say and reports as asked",
     "The native program holds exactly the configuration its namelist files state: values of the job file (the one the run configuration names, job.nml by default, standard input when it does not exist), of run.nml and of preferences.nml, a later statement prevailing over an earlier one and run.nml over the preferences, each entry where the file puts it (elements, sections, null values, repeat counts), and the documented default for everything not stated; the shipped templates and jobs are accepted. A job configuration that is none is refused with an error. "
     "Messages are single lines with an ISO 8601 time stamp of the moment (with the local offset), the level and the module; at a log level exactly those messages of the highest level are printed that are severe enough, and neither the results nor the exit status depend on the log level.",
     ["inputs", "configurations"], "all namelist files, log levels and time zones", "No test reads a configuration or looks at messages.",
     ["harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90", "harmonisation_meiv_demo/src/main/fortran/gpl/mod_logger.F90", "harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90", "harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml"],
     [("configuration", "harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90:config_initialize"), ("messages", "harmonisation_meiv_demo/src/main/fortran/gpl/mod_logger.F90:logger_initialize")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
