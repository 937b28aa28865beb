#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Multiprocessing never changes the answer",
 "A redshift fit run with any number of worker processes returns, for every target, the same scan arrays and the same "
 "table of best fits (same row order and same flags) as the single-process run on the same targets, and every value is "
 "attributed to the target whose spectra produced it. This holds for every order in which the workers' messages can "
 "reach the parent, and the run always terminates.",
 ["schedules", "configurations"],
 "all process counts 1..N (including more workers than targets), all small target lists including targets with different numbers of spectra, masked targets and string/integer ids, and all delivery orders of the workers' messages",
 "The tests run mp with two same-shaped targets and one (OS chosen) delivery order; unequal work per target, more workers than targets, and other delivery orders are never reached.",
 ["py/redrock/zscan.py", "py/redrock/zfind.py", "py/redrock/targets.py", "py/redrock/utils.py"],
 [("per-template worker processes with result and progress queues", "zscan.py:calc_zchi2_targets, zscan.py:_mp_calc_zchi2"),
  ("per-template fit workers", "zfind.py:zfind, zfind.py:_mp_fitz"),
  ("shared-memory packing of spectra", "targets.py:Spectrum.sharedmem_pack/unpack"),
  ("work split", "targets.py:distribute_targets, utils.py:distribute_work")],
 ["return value of redrock.zscan.calc_zchi2_targets", "return value of redrock.zfind.zfind"],
 [("mpdist", "which ids each worker handles", "zscan.py:calc_zchi2_targets")])

prop("C02", "MPI decomposition never changes the answer and never deadlocks",
 "For every number of MPI ranks, including more ranks than targets and more ranks than trial redshifts, the scan arrays and best-fit table "
 "that the root rank obtains are the same as those of a serial run on the same targets, with every rank's local scan equal to the serial one for its targets. "
 "All ranks take part in the same collective operations in the same order, and the run terminates whether sends are buffered or synchronous and in whatever order messages arrive; "
 "results too numerous for one message arrive complete.",
 ["schedules", "configurations"],
 "all communicator sizes 1..N, all splits of small target and redshift grids, buffered and synchronous point-to-point semantics, rank interleavings, and result counts around every batching boundary",
 "mpi4py is not even installed for the tests: the whole MPI path (redshift-slice ring, rank-0 gather in batches, broadcast of targets and templates) is never executed.",
 ["py/redrock/zscan.py", "py/redrock/zfind.py", "py/redrock/targets.py", "py/redrock/templates.py"],
 [("ring exchange of redshift slices", "templates.py:DistTemplate.cycle"),
  ("batched point-to-point gather", "zfind.py:zfind"),
  ("broadcast and split of targets", "targets.py:DistTargetsCopy"),
  ("wavelength-grid union", "targets.py:DistTargets.wavegrids"),
  ("template broadcast", "templates.py:load_dist_templates")],
 ["rank-0 return value of zfind", "per-rank return of calc_zchi2_targets"],
 [("_piece", "redshift slice currently held by a rank", "templates.py:DistTemplate")])

prop("C03", "A failing worker never causes a hang or a silently wrong result",
 "If a worker process of a multi-process run raises an error or is killed at any point of its work, the run ends with an error reported to the caller; "
 "it neither waits forever nor returns results that lack or misattribute a target.",
 ["fault_sequences", "schedules"],
 "every worker, both phases (scan and fit), every template, failing before, between and after each of its messages, by exception or by death, combined with the delivery orders of the other workers' messages",
 "No test makes a worker fail.",
 ["py/redrock/zscan.py", "py/redrock/zfind.py"],
 [("worker wrapper that catches and prints exceptions", "zscan.py:_mp_calc_zchi2, zfind.py:_mp_fitz"),
  ("parent waiting for progress and results", "zscan.py:calc_zchi2_targets, zfind.py:zfind")],
 ["return or exception of zfind in the parent"])

prop("C04", "Output files appear whole or not at all",
 "If the program is killed at any moment, or a write to disk fails, while it writes a redshift catalogue, a scan file, or a best-fit model file, the final output name holds the complete previous file (nothing if there was none) or the complete new file; "
 "it never holds a truncated or mixed file. When the writer reports success the final name holds the complete new content, and no temporary file is left under a name that a later run would take for a finished output.",
 ["crash_points", "fault_sequences"],
 "every system call that changes the file system issued by each writer, interrupted before it, after it, and (for data writes) after a partial write or with an I/O error, both with no previous output and with a previous output in place",
 "Tests only write successfully and read back.",
 ["py/redrock/results.py", "py/redrock/external/desi.py", "py/redrock/external/boss.py"],
 [("write to a temporary name then rename", "results.py:write_zscan, external/desi.py:write_zbest, external/desi.py:write_bestmodel, external/boss.py:write_zbest")],
 ["the final output path after the interruption"])

prop("C05", "Work is split into complete, disjoint, capacity-aware shares",
 "Whatever the ids, weights and capacities, every id is assigned to exactly one process, there is one (possibly empty) share per process, shares list heavier units first, "
 "and the split is a pure function of the inputs, so that every rank computes the same one. "
 "No process could be relieved by handing its last unit to another: its load per capacity never exceeds what any other process would have with that unit added; "
 "hence with equal capacities no share exceeds the average load by more than the largest single weight.",
 ["inputs", "configurations"],
 "all numbers of processes, id lists, weight vectors and capacity vectors up to a bound, including no ids, more processes than ids, ties, string ids",
 "Tests check a handful of examples; partition and balance must hold for every combination.",
 ["py/redrock/utils.py", "py/redrock/targets.py", "py/redrock/external/desi.py"],
 [("greedy descending-weight assignment", "utils.py:distribute_work"), ("weights from the number of spectra", "targets.py:distribute_targets")],
 ["return value of distribute_work / distribute_targets"])

prop("C06", "Saved results read back unchanged",
 "A scan file written after a fit and read back, in full or for any subset of targets in any order, gives for each requested target exactly the arrays and best-fit rows that were written for that target; likewise a redshift catalogue. "
 "Restarting a fit from a saved scan gives the same best fits as the fit that computed the scan.",
 ["histories", "inputs", "configurations"],
 "all target sets up to a bound (ids in any order, integer or string), all template sets with one or several subtypes, template grids of different length, archetype and non-archetype fits, all subsets and orders of requested targets, overwrite histories",
 "Tests round-trip one PCA result with two targets.",
 ["py/redrock/results.py", "py/redrock/zfind.py"],
 [("HDF5 zscan layout", "results.py:write_zscan, results.py:read_zscan, results.py:read_zscan_redrock, results.py:read_zfit")],
 ["values returned by read_zscan, read_zscan_redrock and read_zfit"])

prop("C07", "The best-fit table obeys its ranking and warning contract",
 "For every target the table holds at most the requested number of fits per spectral type, numbered 0,1,2,... with acceptable fits first and increasing chi2 within acceptable and within bad fits; "
 "deltachi2 is the chi2 distance to the next acceptable fit farther than the velocity limit (the smaller of the two fits' limits), and the small-deltachi2 warning is set exactly when another acceptable fit at least that far away lies within 9 in chi2, better or worse. "
 "Fits without data, with too few unmasked pixels per coefficient, or with a non-physical archetype coefficient carry the matching warning bit, the warning bits keep their documented values, and bits reserved for other programs are never set.",
 ["inputs", "configurations"],
 "all small tables of candidate fits over a grid of chi2 values (with ties), redshifts straddling the velocity limits, warning bits and types, and all small end-to-end fits",
 "Tests check individual examples of deltachi2; the ranking contract couples sorting, trimming, numbering and warnings for every combination.",
 ["py/redrock/zfind.py", "py/redrock/zwarning.py", "py/redrock/constants.py"],
 [("sorting by (bad fit, chi2)", "zfind.py:sort_zfit_dict, zfind.py:sort_zfit"), ("deltachi2 and warning", "zfind.py:calc_deltachi2"), ("trim and number", "zfind.py:zfind")],
 ["table returned by zfind", "calc_deltachi2 return value"])

prop("C08", "Redshift candidates are the true separated minima of the scan",
 "Refining a chi2 scan starts from its lowest local minima (edges included) in order of chi2, yields at most the requested number of candidates, never two closer than the velocity limit of the spectral type, and never skips a minimum that is lower than a reported one unless it is within the limit of a reported one. "
 "Each unflagged candidate lies inside the refined interval around its scan minimum, strictly inside the redshift range, its chi2 and redshift error are those of the parabola through the three refined points around the lowest one, candidates at the edge of the range or without a valid parabola are flagged, and the coefficients of every candidate are the best fit of the template at its redshift.",
 ["inputs"],
 "all chi2 sequences over a small value alphabet and length (with plateaus, ties, NaN outside a prior window), all small redshift grids and candidate limits, all parabola point triples on a grid",
 "Tests check a few arrays; plateaus, edges, ties and closeness rules interact for every shape of scan.",
 ["py/redrock/fitz.py"],
 [("local minima", "fitz.py:find_minima"), ("parabola fit", "fitz.py:minfit"), ("refinement loop", "fitz.py:fitz"), ("velocity difference", "fitz.py:get_dv")],
 ["find_minima, minfit, fitz return values"])

prop("C09", "Each scan value is the weighted least-squares optimum",
 "At every trial redshift the reported chi2 and coefficients are the minimum, and a minimiser, of the weighted squared residual between the target's spectra and the resolution-convolved template combination, over all coefficients or over the non-negative or bounded ones when the template demands it. "
 "Fluxes in masked pixels never affect the result, scaling the flux scales the coefficients, splitting or reordering a target's spectra leaves chi2 unchanged, a target without data is reported with the huge-chi2 marker and zero coefficients, and a singular system never aborts the scan.",
 ["inputs", "configurations"],
 "all small spectra over a value grid including zero weights and NaN-free masked garbage, 1..3 spectra with distinct grids and resolution widths, 1..4 basis vectors, the three solver families, penalty templates on and off",
 "Tests compare chi2 for one noiseless spectrum; optimality and mask independence are universally quantified.",
 ["py/redrock/zscan.py"],
 [("normal equations per redshift", "zscan.py:calc_zchi2_batch"), ("solver selection", "zscan.py:solve_matrices"), ("negative-[OII] penalty", "zscan.py:calc_negOII_penalty"), ("sparse resolution product", "zscan.py:dot_product_sparse_one")],
 ["calc_zchi2_batch and calc_zchi2_targets return values"])

prop("C10", "Rebinning a template conserves its integral exactly",
 "The rebinned value of every output pixel equals the integral of the piecewise-linear input over that pixel divided by the pixel width, for any increasing grids, any redshifts and any number of basis vectors, whatever way edges or centres are given. "
 "Output pixels not fully covered by the input, and inputs of different lengths, are refused with an error rather than extrapolated, and rebinning several redshifts or templates together equals rebinning each alone.",
 ["inputs"],
 "all small increasing input and output grids (aligned, interleaved, coarser, finer, edge coincident), all basis flux patterns, single and batched redshifts, 1-d and 2-d inputs",
 "Tests use a few grids and a tolerance; coincidences of bin edges and input points are corner cases that must hold for all.",
 ["py/redrock/rebin.py"],
 [("trapezoid accumulation", "rebin.py:trapz_rebin"), ("edges from centres", "rebin.py:centers2edges"), ("template rebin", "rebin.py:rebin_template")],
 ["trapz_rebin, centers2edges, rebin_template return values"])

prop("C11", "Intergalactic transmission follows its model and never amplifies",
 "For every redshift, wavelength grid and transmission model the returned transmission lies in [0,1], is exactly 1 redward of Lyman-alpha in the rest frame, and equals the published optical-depth formula of the selected model at every pixel. "
 "Computing many redshifts at once equals computing each alone, and skipping the computation is reported only when the true transmission is 1 everywhere; selecting no model leaves templates unattenuated and an unknown model is refused.",
 ["inputs", "configurations"],
 "all models, a dense grid of emission redshifts and observed wavelengths straddling every break (each series line, the Lyman limit, each piecewise redshift boundary), scalar and batched calls",
 "Tests sample two models at few points; the piecewise formulas have many branches.",
 ["py/redrock/igm.py", "py/redrock/templates.py"],
 [("transmission models", "igm.py:transmission_Lyman and model functions")],
 ["transmission_Lyman return value"])

prop("C12", "Coadding is an inverse-variance mean that ignores masked pixels",
 "The coadd of a target's spectra on the same grid has, per pixel, summed weights and the weighted mean flux, with a resolution matrix that is the weighted mean of the inputs' over the same weights; pixels with no weight stay weightless, and results do not depend on the order of the spectra. "
 "Cosmic-ray rejection only removes weight, only when several spectra of a band disagree beyond the threshold at that pixel, never for identical spectra, and always masks a single strong outlier among at least three comparable spectra (after the first unmasked pixel, which has no gradient).",
 ["inputs"],
 "all small sets of 1..3 spectra over value grids including masked pixels, all orders, all bands mixes, all cosmic positions and amplitudes on a grid, threshold values",
 "Tests coadd identical copies only.",
 ["py/redrock/targets.py"],
 [("coadd and cosmic rejection", "targets.py:Target.compute_coadd"), ("poor resolution pixels masked", "targets.py:Spectrum.__init__")],
 ["spectra of a Target after coaddition"])

prop("C13", "Every DESI target gets exactly its own spectra",
 "Reading DESI spectra or coadd files yields each requested target once, holding exactly the flux, inverse variance (zero where masked), wavelengths and resolution of its own rows in all files, whatever the order of rows, the number of files, the selection by target id or by range, the coaddition mode, and the number of ranks. "
 "The accompanying target tables have the same targets in the same order as the fitted targets, each row carrying that target's own metadata.",
 ["inputs", "configurations"],
 "all row orders and multiplicities of a few targets in one or two files, all selections (id lists in any order, ranges, sizes), cameras present or absent, mask/resolution variants, coadd on/off, 1..4 ranks",
 "No test reads a DESI file.",
 ["py/redrock/external/desi.py"],
 [("row to target maps and broadcast", "external/desi.py:DistTargetsDESI")],
 ["DistTargetsDESI.local()", "DistTargetsDESI.fibermap / exp_fibermap / tsnr2", "rrdesi output tables"])

prop("C14", "The DESI command produces complete and mutually consistent products",
 "For every supported combination of options the DESI command either refuses before doing work, with a non-zero status, or writes every requested product: a catalogue with exactly one row per requested target in the order of the accompanying target table, equal to the best ranked fit of that target in the details file, and a model file for the same targets. The header keywords of the input tables are carried over to the target tables, and the FITS checksums in the products are valid. "
 "Targets without data, targets with no usable minimum, subset selections and multi-process or multi-rank execution give the same rows for the same targets as a plain run, and fiber problems recorded in the input become warning bits of exactly the targets concerned.",
 ["configurations", "inputs", "schedules"],
 "the lattice of options (outfile, details, model, targetids, mintarget, ntargets, nminima, priors, archetypes and their sub-options, chi2-scan restart, zscan-galaxy style template choices, mp, ranks) on small synthetic files including fully masked targets",
 "The command line tool is not exercised by any test.",
 ["py/redrock/external/desi.py", "py/redrock/results.py", "bin/rrdesi", "bin/rrdesi_mpi"],
 [("driver", "external/desi.py:rrdesi"), ("catalogue writer", "external/desi.py:write_zbest"), ("model writer", "external/desi.py:write_bestmodel")],
 ["files written by rrdesi", "exit status"])

prop("C15", "BOSS/eBOSS spectra map to their targets and identifiers are reversible",
 "The numerical target identifier built from plate, MJD and fiber is unique and decodes back to the same triple for all valid values, and every spectrum read from an spPlate or spCFrame file is attributed to its own plate, MJD and fiber with zero weight where masked, for every selection and order of fibers. "
 "The BOSS command writes one catalogue row per selected target equal to its best ranked fit, or exits with an error before doing work.",
 ["inputs", "configurations"],
 "all boundary plates/MJDs/fibers, all small fiber subsets and orders, coadd and individual exposures, option lattice of the BOSS command",
 "No test touches the BOSS code.",
 ["py/redrock/external/boss.py", "bin/rrboss", "bin/rrboss_mpi"],
 [("id codec", "external/boss.py:platemjdfiber2targetid, targetid2platemjdfiber"), ("reader", "external/boss.py:read_spectra"), ("driver", "external/boss.py:rrboss")],
 ["targets returned by read_spectra", "files written by rrboss"])

prop("C16", "The reported best fit can be re-evaluated to the fitted model",
 "Evaluating a reported fit (type, subtype, redshift, coefficients) on the target's own spectra reproduces the model whose weighted residual gives the reported chi2, including resolution and intergalactic absorption, for every template kind and archetype mode. "
 "A target without data evaluates to zero, model rows written to file belong to the targets in their rows, and evaluation without a resolution matrix gives the unconvolved model.",
 ["inputs", "configurations"],
 "all template kinds (with and without absorption model, log and linear grids, several subtypes), all archetype modes, all masked patterns, local order of targets, 1..N ranks",
 "Tests never evaluate models from reported coefficients against the reported chi2.",
 ["py/redrock/templates.py", "py/redrock/targets.py", "py/redrock/archetypes.py", "py/redrock/external/desi.py"],
 [("model evaluation", "templates.py:Template.eval, templates.py:eval_model, targets.py:Target.eval_model, archetypes.py:Archetype.eval"), ("model file rows", "external/desi.py:rrdesi")],
 ["Target.eval_model", "model file"])

prop("C17", "Output headers identify the templates that reproduce the fit",
 "Template discovery returns exactly the requested templates, each once and under its own type, in every way of naming them (directory, file list, text list, default location), and loading reproduces the file's grid, redshift range, method and absorption model. "
 "The template names and versions recorded in an output header are those actually used, and reading them back selects the same files; a requested file that is missing or two different templates with the same identity is an error rather than a silent substitution.",
 ["inputs", "configurations"],
 "all small template directories and naming forms, all headers written from all subsets of templates, versions and archetypes present or absent",
 "Tests check individual header layouts.",
 ["py/redrock/templates.py", "py/redrock/external/desi.py", "py/redrock/archetypes.py"],
 [("discovery", "templates.py:find_templates, templates.py:load_templates"), ("header to files", "templates.py:header2templatefiles"), ("identity", "templates.py:make_fulltype, templates.py:parse_fulltype")],
 ["return values of find_templates, load_templates, header2templatefiles", "headers written by write_zbest"])

prop("C18", "Archetype fits are physical and select the true best archetype",
 "In archetype mode the reported archetype is one whose (regularised) least-squares fit has the lowest chi2 among all archetypes of that type at the final redshift, with non-negative archetype coefficients where the method demands it and Legendre terms fitted separately per camera when requested, and the reported chi2 is that of the reported coefficients. "
 "Every combination of the archetype options that the command accepts produces a complete result, and each Legendre coefficient is stored with the camera it was fitted to whatever the order of the spectra.",
 ["inputs", "configurations"],
 "all combinations of Legendre degree 0..3, per-camera on/off, prior on/off, nearest neighbours none..n, solver method, camera orders, one or several spectral types with or without archetypes, masked cameras",
 "No test runs an archetype fit.",
 ["py/redrock/archetypes.py", "py/redrock/fitz.py", "py/redrock/zscan.py", "py/redrock/zfind.py"],
 [("archetype selection", "archetypes.py:Archetype.get_best_archetype"), ("nearest neighbours", "archetypes.py:Archetype.nearest_neighbour_model"), ("per-camera solve", "zscan.py:per_camera_coeff_with_least_square_batch"), ("prior", "fitz.py:prior_on_coeffs")],
 ["get_best_archetype return value", "archetype rows of the zfind table"])

prop("C19", "Batch runs cover every input once and only redo what is missing",
 "Planning a batch run assigns every input that lacks an output to exactly one group with a balanced share of the work, never schedules an input whose outputs already exist, maps inputs to distinct output names, and reports the actual load of each group. "
 "Re-running after any subset of the work was completed or failed leads to the same final set of outputs, and an existing log is never overwritten.",
 ["histories", "configurations", "fault_sequences"],
 "all small input sets with sizes, all subsets of existing outputs, all group counts, all run/fail/retry histories of a few groups, all existing log names",
 "bin/wrap-redrock has no tests.",
 ["bin/wrap-redrock"],
 [("partition", "bin/wrap-redrock:weighted_partition"), ("resume", "bin/wrap-redrock:find_specfiles"), ("log backup", "bin/wrap-redrock:backup_logs")],
 ["group lists, output names, log directory"])

prop("C20", "Redshift priors act only on their targets and never make a fit fail",
 "A prior adds to each listed target's scan the value of the function named in the file with that target's own mean and width and leaves every other target untouched; Gaussian and Lorentzian values follow their formulas, and a top-hat confines the reported redshifts to its window whenever the scan has a minimum there. "
 "A top-hat of any position and width, including ones at the edge of the grid, covering one grid point or none at all, never makes the fit fail or lose a target.",
 ["inputs", "configurations"],
 "all prior functions, all positions and widths of the window relative to a small redshift grid, all subsets of targets listed, rows in any order",
 "Tests check the formulas on one grid.",
 ["py/redrock/priors.py", "py/redrock/zfind.py"],
 [("prior functions", "priors.py:Priors"), ("application", "zfind.py:zfind")],
 ["Priors.eval", "zfind results with priors"])

prop("C21", "The GPU code path computes what the CPU code path computes",
 "Scan, refinement, rebinning, transmission and archetype selection give the same results with GPU arithmetic enabled as without it, for every shape of input and for every block size, and selecting GPUs for only some ranks changes neither the set of targets nor their results.",
 ["inputs", "configurations"],
 "all small shapes (redshifts, pixels, basis vectors, resolution widths), all kernels, solver families, ranks with and without a GPU",
 "Without a GPU the tests skip every GPU branch.",
 ["py/redrock/zscan.py", "py/redrock/rebin.py", "py/redrock/igm.py", "py/redrock/archetypes.py", "py/redrock/external/desi.py"],
 [("CUDA kernels and batch algebra", "zscan.py, rebin.py"), ("rank capacities", "external/desi.py:rrdesi")],
 ["return values with use_gpu=True versus use_gpu=False"])

prop("C22", "Spectra survive any history of sharing and use",
 "Packing a spectrum into shared memory, unpacking it and using it, in any sequence of such operations, in the same or in a forked process, always leaves wavelengths, flux, weights and resolution equal to the original values, and repeating an operation changes nothing.",
 ["histories"],
 "all operation sequences up to a depth over pack, unpack, resolution access, coadd, Legendre, fork-and-read, for resolution matrices of several widths, cached or not, in all number types",
 "Tests pack and unpack once.",
 ["py/redrock/targets.py", "py/redrock/utils.py"],
 [("pack/unpack flags", "targets.py:Spectrum.sharedmem_pack, targets.py:Spectrum.sharedmem_unpack, targets.py:Spectrum.Rcsr"), ("shared arrays", "utils.py:mp_array")],
 ["attributes of Spectrum/Target after the history"])

prop("C23", "Every command option has its documented effect on the fits",
 "The redshift commands fit with exactly the settings they were given. For every combination of options, run serially, with processes, over MPI or restarted from a saved scan, every redshift scan and every fit they report equals the one computed from the selected spectra with the documented meaning of those options - number of minima, fine grid points, scan ranges, individual spectra or coadds, rejection thresholds, sky line masking, archetype degree, neighbours, per-camera terms and prior, priors - and with the documented default for each option not given; an option that does not apply changes nothing.",
 ["configurations", "inputs"],
 "single options, pairs of options and all archetype sub-options together at small, default and large values, on inputs with one, two and three cameras and repeated exposures, for rrdesi and rrboss, serial, multiprocessing and MPI",
 "No test runs the commands; whether an option reaches the fit unchanged is visible only in fits made with it.",
 ["py/redrock/external/desi.py", "py/redrock/external/boss.py", "py/redrock/zfind.py", "py/redrock/templates.py"],
 [("option translation", "external/desi.py:rrdesi"), ("option translation", "external/boss.py:rrboss"), ("scan ranges", "templates.py:load_dist_templates")],
 ["fits and scans in the details file"])

prop("C24", "The plot viewer always shows the selected target and fit",
 "After any sequence of key presses the plot viewer shows exactly one of the fitted targets and one of its ranked fits: up and down move one target and stop at the ends, starting at its best fit; left and right cycle through the fits of that target; other keys change nothing. Everything drawn - scan curves, all fits and their labels, markers, data without masked pixels, model, title and warning flags - belongs to that target and fit whatever was looked at before, the view limits survive switching fits, and looking changes neither spectra nor fits. The plot command shows the targets, spectra, templates and archetypes that its options name, from all of its input files.",
 ["histories", "configurations"],
 "all sequences of viewer events (four arrows, details, unknown key, zoom) up to a depth and all words of a length inside long histories, over tables with one to four targets and fits, masked and missing targets; the plot command on DESI and BOSS files with selections, exposures and archetypes",
 "No test opens the viewer; what is shown depends on the history of keys.",
 ["py/redrock/plotspec.py", "bin/rrplot"],
 [("key handling", "plotspec.py:PlotSpec._onkeypress"), ("drawing", "plotspec.py:PlotSpec.plot"), ("selection", "bin/rrplot")],
 ["artists and limits of the figure"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
