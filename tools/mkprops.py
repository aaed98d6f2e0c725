#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, pathlib
S = "src/mcsas3/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
                     mechanism=[dict(name=n, where=S+w) for n, w in mech], observe_at=observe)))

p("C01", "Clipping keeps exactly the datapoints in the requested Q range",
  "For every 1D dataset and every data range [lo, hi], the data kept after loading are exactly the loaded datapoints with lo <= Q < hi that have no missing value in any column. They keep their order and all their column values, and the raw data stay as loaded. If no datapoint remains, loading fails with an error instead of continuing.",
  ["inputs", "configurations"], "all 1D datasets of any length (any Q order, repeated Q, missing values, extra columns) and all data ranges",
  "Tests only look at the minimum and maximum Q of one file for one range; they never compare the kept points with the points that should be kept.",
  ["mc_data_1d.py", "mc_data.py"], [("McData1D.clip", "mc_data_1d.py"), ("McData.prepare", "mc_data.py")],
  ["McData1D(df=..., dataRange=...).clippedData", "rawData"])
p("C02", "Omitted Q ranges remove exactly the datapoints inside them",
  "For every list of omitted ranges [a, b], the 1D data prepared for fitting lack exactly the clipped datapoints with a <= Q < b for at least one of the ranges. All other datapoints are kept once, in order and with unchanged values, and without omitted ranges nothing is removed. A malformed range (not two elements, or not given as a list) is refused with an error.",
  ["inputs", "configurations"], "all 1D datasets (also with repeated row labels) and all lists of omitted ranges, overlapping, empty or reversed ones included",
  "One test loads one file with two omitted ranges and asserts nothing about the result.",
  ["mc_data_1d.py", "mc_data.py"], [("McData1D.omit", "mc_data_1d.py")],
  ["McData1D(df=..., omitQRanges=...).clippedData"])
p("C03", "Rebinning uses every datapoint once and gives correct means and errors",
  "Rebinning a 1D dataset of positive Q to n logarithmically spaced bins puts every kept datapoint in exactly one bin and yields one output point per non-empty bin, at most n, in the order of the bins. Its Q and I are the plain means over the bin's datapoints, and its intensity uncertainty is the largest of the standard error of the mean, the propagated uncertainty sqrt(sum(sigma^2))/m and the minimum relative uncertainty times I. A bin with a single datapoint keeps that datapoint's Q and I, and its uncertainty is the larger of its own sigma and the minimum relative uncertainty times I.",
  ["inputs", "configurations"], "all datasets of any length with positive finite Q, all n >= 1, all minimum relative uncertainties",
  "Tests assert only that the number of output points is below a limit, for two files.",
  ["mc_data_1d.py"], [("McData1D.reBin", "mc_data_1d.py")],
  ["McData1D(df=..., nbins=n, IEmin=e).binnedData"])
p("C04", "The fit receives the selected dataset with only Q shifted",
  "After a 1D dataset is loaded, the measurement data handed to the fit are those of the selected processing stage (raw, clipped or binned; binned by default), with Q shifted by the configured Q offset and I and sigma unchanged. Processing always clips first, then omits, then rebins; with the number of bins set to zero the binned data are the clipped-and-omitted data unchanged. An unknown stage name is refused.",
  ["inputs", "configurations"], "all 1D datasets, Q offsets, stages, numbers of bins including zero",
  "Tests only check that some Q is present, and for zero bins compare two lengths.",
  ["mc_data_1d.py", "mc_data.py"], [("McData1D.linkMeasData", "mc_data_1d.py"), ("McData.prepare", "mc_data.py")],
  ["McData1D(...).measData"])
p("C05", "2D data: only valid pixels are fitted, and pixel order is reversible",
  "For every 2D image, the fitted datapoints are exactly the unmasked pixels with finite intensity, non-zero uncertainty and both axis and radial Q strictly within the set limits; the I, sigma and Q values of each entry belong to the same pixel. Reconstructing an image from one value per fitted datapoint puts each value at the pixel it belongs to and leaves all others as NaN. The fit receives these data with the two Q offsets added to the respective Q axis.",
  ["inputs", "configurations"], "all image sizes, masks, intensities, uncertainties, Q maps and limits that leave at least one valid pixel (intensities not NaN)",
  "The only 2D test loads one file and checks that Q exists.",
  ["mc_data_2d.py"], [("McData2D.clip", "mc_data_2d.py"), ("McData2D.reconstruct2D", "mc_data_2d.py"), ("McData2D.linkMeasData", "mc_data_2d.py")],
  ["McData2D.clippedData I/ISigma/Q/invMask", "reconstruct2D()", "measData"])
p("C06", "A stored 1D dataset is restored to the same fit data and settings",
  "Storing a 1D dataset in a result file and creating a new one from that file gives the same raw data, data range, Q offset, omitted ranges, number of bins, minimum relative uncertainty, stage selection, loader, file name, path dictionary and csv arguments. It therefore gives the same measurement data for the fit. Restoring reads only the file and does not change it.",
  ["inputs", "configurations", "histories"], "all 1D datasets and all combinations of these settings, stored in a new file or result index",
  "The restore tests only check that loading raises no exception, with default settings.",
  ["mc_data.py", "mc_data_1d.py", "mc_hdf.py"], [("McData.store", "mc_data.py"), ("McData.load", "mc_data.py"), ("McData1D.__init__", "mc_data_1d.py")],
  ["McData1D.store(file); McData1D(loadFromFile=file)"])
p("C07", "Result-file entries read back as stored, and writes touch nothing else",
  "Any supported value (number, bool, string, path, timestamp, list, tuple, numeric or string array, quantity with unit, table, or a dict of these) stored under a key is what a later read of that key returns, also if the key held a value of another type, size or content before. All other entries of the file stay as they were. Storing None changes nothing, and reading an absent key gives the requested default.",
  ["inputs", "histories"], "all sequences of stores, all supported value types and contents, all keys and files",
  "No test reads back a value it stored; every test stores into a new file.",
  ["mc_hdf.py"], [("storeKV", "mc_hdf.py"), ("storeKVPairs", "mc_hdf.py"), ("loadKV", "mc_hdf.py"), ("loadKVPairs", "mc_hdf.py")],
  ["storeKV/loadKV on a scratch file"])
p("C08", "A stored repetition reloads as the same model and optimization state",
  "Storing a repetition and loading it again gives the same contribution parameters (values, names, order), volumes, seed, model name and type, fit limits and static parameters, with the number of contributions equal to the stored ones. The goodness of fit, scaling and background, counters, limits, model intensity and the acceptance history come back with the stored values. Setting up the fit from the loaded repetition does not alter the loaded contributions, counters or acceptance history.",
  ["inputs", "configurations", "histories"], "all numbers of contributions and parameters, all states an optimization can reach, all repetition and result indices",
  "The tests within reach never store or load a model; the integration test compares averages within a tolerance.",
  ["mc_model.py", "mc_opt.py", "mc_core.py"], [("McModel.store/load", "mc_model.py"), ("McOpt.store/load", "mc_opt.py"), ("McCore.store/load/__init__", "mc_core.py")],
  ["McCore.store(file); McCore(loadFromFile=file, loadFromRepetition=r)"])
p("C09", "Every part of a result is stored and read under its own result index",
  "For every non-negative result index n, data, model, optimization settings, repetitions, histograms and averages are written to and read from the entry of index n only. Runs under different indices in one file do not alter or read each other's entries, nor any other content of the file. A negative or non-integer index is refused.",
  ["inputs", "configurations", "histories"], "all result indices and all sequences of runs, histogrammings and restores with different indices in one file",
  "Tests store under one index per file and never look where the data went.",
  ["mc_hdf.py", "mc_data.py", "mc_core.py", "mc_hat.py", "mc_model.py", "mc_opt.py", "mc_model_histogrammer.py", "mc_analysis.py"],
  [("ResultIndex", "mc_hdf.py"), ("store methods", "mc_core.py")], ["paths in the result file"])
p("C10", "Model intensity, volumes and goodness of fit match the contributions",
  "After the set-up of a fit and after every iteration, the total model intensity equals the sum over all contributions of each contribution's volume-normalized intensity. The stored volumes are those of the contributions, in order. The stored goodness of fit is the reduced chi-square of that intensity at the stored scaling and background.",
  ["inputs", "histories"], "all data, models, numbers of contributions and sequences of accepted and rejected picks",
  "No test within reach runs an iteration; the integration tests check only the end result of a few fits.",
  ["mc_core.py"], [("McCore.initModelI", "mc_core.py"), ("McCore.reEvaluate", "mc_core.py"), ("McCore.accept", "mc_core.py"), ("McCore.__init__", "mc_core.py")],
  ["McCore._opt.modelI/gof/x0", "McCore._model.volumes/parameterSet"])
p("C11", "A pick is kept only if it improves the fit, and is recorded then",
  "Each iteration proposes a replacement for exactly one contribution, the iteration number modulo the number of contributions, and adopts it if and only if the goodness of fit becomes strictly smaller. An adopted pick replaces that contribution only, increases the accepted count by one and appends the iteration number and the goodness of fit reached to the history. A rejected pick leaves contributions, volumes, intensity, scaling, goodness of fit and history unchanged.",
  ["inputs", "histories"], "all fit states and all picks, in particular picks of equal or worse fit",
  "No test within reach runs an iteration, and none examines a single acceptance decision.",
  ["mc_core.py"], [("McCore.iterate", "mc_core.py"), ("McCore.accept", "mc_core.py"), ("McCore.contribIndex", "mc_core.py")],
  ["McCore.iterate()"])
p("C12", "Optimization stops exactly when a limit is reached",
  "An optimization run continues while the accepted count is below its maximum, the iteration count is below its maximum and the goodness of fit is above the convergence criterion, and ends as soon as one of these fails. A new fit starts with both counters at zero and an acceptance history holding only its initial goodness of fit, each iteration counts exactly once, and the counters never exceed their limits. The goodness of fit never increases during the run.",
  ["inputs", "histories", "configurations"], "all limits (also zero or already reached) and all sequences of accepted and rejected picks",
  "No test within reach runs an optimization; the integration tests never check the counters.",
  ["mc_core.py", "mc_opt.py"], [("McCore.optimize", "mc_core.py"), ("McCore.__init__", "mc_core.py")],
  ["McCore.optimize(); McOpt step/accepted/gof"])
p("C13", "All picked parameter values lie within the fit limits",
  "Every initial and every newly picked value of every fit parameter lies between its lower and upper limit, for uniform and for logarithmic picking; logarithmic picking with a limit that is not positive is refused. Every pick and every contribution has a value for each fit parameter and for no other. The number of contributions is the configured one.",
  ["inputs", "configurations", "histories"], "all limits, parameters, numbers of contributions, seeds and picking modes",
  "No test within reach creates a model; drawing values a few times cannot show that none is ever outside.",
  ["mc_model.py"], [("McModel.generateRandomParameterValues", "mc_model.py"), ("McModel.log_transform_generator", "mc_model.py"), ("McModel.resetParameterSet", "mc_model.py")],
  ["McModel.pick(); McModel.parameterSet"])
p("C14", "Scaling and background fit returns a true reduced chi-square within bounds",
  "For all measured data and model intensities, the returned value is the mean over all datapoints of the squared difference between measured and scaled-plus-background model intensity, divided by sigma, at the returned scaling and background. Supplied bounds are used as given; by default the scaling is not negative and the background is at most the mean measured intensity in magnitude, and the automatic starting guess lies within them. Data with NaN or infinite values or sigmas, of unequal or zero length, or not one-dimensional are refused.",
  ["inputs"], "all data lengths and values, model intensities, starting guesses and bounds",
  "No test within reach runs the fit of scaling and background.",
  ["osb.py"], [("optimizeScalingAndBackground", "osb.py")], ["optimizeScalingAndBackground(I, sigma).match(model, x0)"])
p("C15", "Internal sphere model gives the analytic volume-normalized sphere scattering",
  "For every positive radius r and Q, the internal sphere model gives the intensity V^2 (drho/100)^2 F^2 with F = 3 (sin(qr) - qr cos(qr)) / (qr)^3, drho the difference of the two scattering length densities, and the volume V = 4/3 pi r^3. The intensity of a contribution used in the fit is the model intensity divided by its volume, with the static parameters and the picked values of that contribution. Evaluating a contribution changes neither the model nor the parameters.",
  ["inputs", "configurations"], "all positive radii and Q, all scattering length densities",
  "No test within reach evaluates a model.",
  ["mc_model.py"], [("mcsasSphereModel.kernelfunc", "mc_model.py"), ("McModel.calcModelIV", "mc_model.py")],
  ["McModel(modelName='mcsas_sphere').calcModelIV()"])
p("C16", "Simulated-data model interpolates inside and extrapolates beyond its data",
  "For every size factor R, the simulated-data model takes the intensity at Q*R by linear interpolation within the simulated Q range, the first simulated intensity below it, and y0 + scaling * (Q*R)^-4 above it, multiplied by R^6, with the volume R^3. Simulation data with a missing component are refused.",
  ["inputs", "configurations"], "all simulated datasets, factors and measured Q values",
  "No test within reach evaluates this model; the integration tests check only that fits run.",
  ["mc_model.py"], [("McSimPseudoModel.interpscale", "mc_model.py"), ("McSimPseudoModel.extrapolatorHighQ", "mc_model.py")],
  ["McSimPseudoModel(...).make_kernel(Q)(factor=R)"])
p("C17", "Every repetition runs once, independently, under its own number",
  "A run with n repetitions optimizes each of the repetitions 0 to n-1 exactly once and stores it under its own number, whether run serially or in parallel. Each starts from newly drawn contributions of its own, and repetitions never use the same random sequence, whatever integer seed is set, or none. The first uses the seed that is set. Result-file writes of parallel repetitions happen only while holding the common lock, which is released afterwards even if storing fails.",
  ["inputs", "configurations", "fault_sequences"], "all numbers of repetitions and cores, all seeds, failures while storing",
  "No test within reach runs the repetitions; the integration tests use unseeded runs and cannot show exclusion.",
  ["mc_hat.py"], [("McHat.run", "mc_hat.py"), ("McHat.runOnce", "mc_hat.py")], ["McHat.run(); entries in the result file"])
p("C18", "Automatic fit limits are pi over the data's Q range; set limits stay",
  "A fit parameter with limits 'auto' gets the limits [pi/Qmax, pi/Qmin] of the measured data, and every other fit parameter keeps the limits given. With an 'auto' limit, data with a Q of zero or below are refused; any other text than 'auto' is refused. The settings passed by the caller are not changed.",
  ["inputs", "configurations"], "all measured Q values and all sets of fit parameters with given or automatic limits",
  "No test within reach sets up a run.",
  ["mc_hat.py"], [("McHat.fillFitParameterLimits", "mc_hat.py"), ("McHat.run", "mc_hat.py")], ["McHat(...).run(); stored fit limits"])
p("C19", "Histograms count every contribution in range once, scaled to volume",
  "For each histogram range, the bins are the given number of equal (linear) or equal-ratio (log) intervals spanning exactly the requested range, or the fit limits of the parameter with automatic range. Each bar is the number of contributions with the parameter value in that bin (upper edge of the last bin included) times the repetition's scaling factor times 1e-5, so that the bars add up to all contributions in range. Unknown parameters, scales or weightings, and numbers of bins below one, are refused. Bars, bin edges and the range used are stored as they are, under the range and repetition they belong to.",
  ["inputs", "configurations"], "all sets of contributions, ranges, numbers of bins, linear and log scales, scaling factors",
  "No test within reach makes a histogram; the integration tests check only that it runs.",
  ["mc_model_histogrammer.py"], [("McModelHistogrammer.histogram", "mc_model_histogrammer.py"), ("McModelHistogrammer.genX", "mc_model_histogrammer.py"), ("McModelHistogrammer.__init__", "mc_model_histogrammer.py")],
  ["McModelHistogrammer(core, ranges)._histDict/_binEdges"])
p("C20", "Population statistics are the exact moments of contributions in range",
  "For each histogram range, mean, variance, skewness and kurtosis are the population moments (normalized by the number of values, skewness and kurtosis by the powers of the standard deviation) of the parameter values of exactly the contributions within the closed range. The total value is their number times the scaling factor times 1e-5. With no contribution in range all statistics are NaN. They are stored as they are, under their range and repetition.",
  ["inputs", "configurations"], "all sets of contributions, ranges and scaling factors",
  "No test within reach computes these statistics.",
  ["mc_model_histogrammer.py"], [("McModelHistogrammer.modes", "mc_model_histogrammer.py")],
  ["McModelHistogrammer(core, ranges)._modes"])
p("C21", "Averages cover all repetitions in the file with correct mean and spread",
  "The analysis uses each repetition present in the result file exactly once, also if some numbers are missing. Each averaged histogram bar, population statistic and optimization value is the mean over these repetitions, with the sample standard deviation (n-1) as its spread if there are several (a repetition for which a statistic has no value is left out of it). Each bar is placed at its bin's center and width; repetitions with different bins are not averaged but refused. The averaged model intensity is the mean over repetitions of the intensity times scaling plus background, its spread the population standard deviation. All averages are stored as they are, under their range and quantity.",
  ["inputs", "histories"], "all numbers of repetitions (also with gaps), contributions, histogram ranges",
  "No test within reach runs the analysis; one integration test compares three numbers within a tolerance.",
  ["mc_analysis.py"], [("McAnalysis.getNRep", "mc_analysis.py"), ("McAnalysis.histAndLoadReps", "mc_analysis.py"), ("McAnalysis.averageHistogram", "mc_analysis.py"), ("McAnalysis.averageI", "mc_analysis.py")],
  ["McAnalysis(file, data, ranges): averaged tables"])
p("C22", "The command line never deletes data unasked and checks its inputs",
  "The optimizing command deletes an existing result file exactly if deletion was requested and the result file is not the input data file, also if that is given under another name; no other file is deleted. The commands refuse a missing data file, and configuration files that are missing or not .yaml, before anything is read or written. A thread count above zero overrides the configured number of cores, otherwise the configured one is used. The result file and the chosen result index are passed to every step, and arguments reach the commands as given.",
  ["inputs", "configurations"], "all combinations of files, flags, thread counts and result indices",
  "No test within reach runs a command.",
  ["cli_tools.py", "__main__.py", "mcsas3_cli_runner.py", "mcsas3_cli_histogrammer.py"], [("McSAS3_cli_optimize.run", "cli_tools.py"), ("McSAS3_cli_histogram.run", "cli_tools.py"), ("main", "mcsas3_cli_runner.py")],
  ["McSAS3_cli_optimize(...), McSAS3_cli_histogram(...)"])
p("C23", "Unknown settings are refused, and instances do not share state",
  "A setting that is not among the documented ones of the dataset, model, optimization or run is refused with an error, and no setting given is silently ignored. Settings not given have their documented default, whatever other instances were created or changed before. Changing one instance's settings, counters or history never changes another instance's.",
  ["inputs", "configurations", "histories"], "all settings and all orders of creating and using instances",
  "Tests create one instance at a time with valid settings.",
  ["mc_opt.py", "mc_model.py", "mc_hat.py", "mc_data.py"], [("McOpt.__init__", "mc_opt.py"), ("McModel.__init__", "mc_model.py"), ("McHat.__init__", "mc_hat.py"), ("McData.processKwargs", "mc_data.py")],
  ["McOpt(**kw), McModel(**kw), McHat(**kw), McData1D(**kw)"])
p("C24", "Data files are read by the right reader, and bad input is refused",
  "A data file is read by the reader of its extension (.pdh; .csv/.dat/.txt; .h5/.hdf5/.nx/.nxs), or for other extensions by the selected loader (from_pdh, from_csv, from_nexus); a missing file or an undetermined type is refused. Text files are read with the set csvargs, PDH files up to their <?xml trailer. NeXus files give the datasets at the given paths, or, following the default attributes, the signal, its Q axis and its uncertainties (0.1 % of I if absent), with all values unchanged. A table without Q, I and ISigma columns, or with non-float ones, is refused.",
  ["inputs", "configurations"], "all file names, loaders, path dictionaries, NeXus attribute layouts for 1D and 2D data, tables",
  "Tests read three of the formats and check only that Q exists.",
  ["mc_data.py", "mc_data_1d.py"], [("McData.from_file", "mc_data.py"), ("McData.from_nexus", "mc_data.py"), ("McData1D.from_pandas", "mc_data_1d.py"), ("McData1D.from_csv, McData1D.from_pdh", "mc_data_1d.py")],
  ["McData1D(filename=...).rawData"])
p("C25", "An interrupted run leaves the earlier repetitions readable",
  "If a run is interrupted at any moment, the result file can still be opened and contains all repetitions completed before, each complete.",
  ["crash_points"], "all moments of interruption, in particular within a write",
  "Tests never interrupt a run.",
  ["mc_hdf.py", "mc_hat.py"], [("storeKV", "mc_hdf.py")], ["result file after a crash"])
p("C26", "Fitted distributions recover the true distribution within their spread",
  "For data simulated from a known distribution, the averaged histogram agrees with it within the reported spread over the repetitions, for the size range the data are sensitive to.",
  ["inputs"], "all distributions within the sensitivity range of the data",
  "One integration test compares three numbers for one dataset.",
  ["mc_core.py", "mc_analysis.py"], [("McCore.optimize", "mc_core.py")], ["averaged histograms"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
for x in P: assert len(x["title"]) <= 80, x["title"]
print(len(P))
