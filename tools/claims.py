NA = {}
check('C01', 'model_checking', 'stateless model checking of the real code under controlled message delivery (really forked workers)',
      'Exhaustive over delivery orders of worker messages for each listed configuration (<=4 targets, <=5 processes quick); assumes workers interact only through queues and read-only shared memory.')
check('C02', 'model_checking', 'stateless model checking of the real code on a simulated MPI communicator (forked ranks, controlled matching and interleaving)',
      'All listed rank counts, send semantics and rank schedules within bounds; assumes mpi4py semantics as simulated (object API), real batch size run only at its boundaries.')
check('C03', 'fault_enumeration', 'exhaustive enumeration of worker failure points combined with message delivery orders on the real code',
      'Every worker, phase and message position, by exception or kill, with one early timeout; partial pipe writes are not modelled.')
check('C05', 'exploration', 'bounded-exhaustive enumeration of all inputs of the work splitter against an exact rational oracle',
      'Every weights/capacities vector over small value sets up to 4 processes and 5 ids (quick), 5 and 6 (thorough).')
check('C10', 'exploration', 'bounded-exhaustive enumeration of grids against the closed-form integral',
      'All pairs of input/output grids on a small lattice, all basis unit vectors; CPU path only.')
check('C11', 'exploration', 'bounded-exhaustive enumeration of model x redshift x wavelength around every formula break against an independent implementation',
      'Rest wavelengths above 250 A; redshifts around every break and on a grid.')
check('C09', 'exploration', 'bounded-exhaustive enumeration of small scans against exact weighted least squares by active-set enumeration',
      'Every flux/weight pattern over small alphabets on 4 pixels, all masks with degenerate templates, every order and split of targets, every small matrix for the solvers; optimality asserted below condition number 1e6.')
check('C08', 'exploration', 'bounded-exhaustive enumeration of chi2 scans through the real refinement code against recomputed refined scans and separation rules',
      'Every scan over 3-4 values (ties, plateaus, inf, NaN) of 3-5 redshifts on 14 grids straddling the velocity limits, 1-5 candidates; every parabola triple and minima sequence over small alphabets.')
check('C07', 'exploration', 'bounded-exhaustive enumeration of candidate tables through the real ranking code against the ranking contract',
      'Every table of 1-4 candidate rows over small alphabets for deltachi2, every combination of up to 2 candidates of up to 4 templates through the real zfind (refinement step replaced), plus real fits.')
check('C20', 'exploration', 'bounded-exhaustive enumeration of priors against formulas and of whole fits against refits of the unprimed scans',
      'Every listed position and width of each function on small grids, every subset of 3 targets (quick: rotating subsets); one function per file.')
check('C12', 'exploration', 'bounded-exhaustive enumeration of coadds against the defining weighted sums and the gradient test',
      'Every flux/weight assignment over 3-5 values for 1-3 spectra of 2-4 pixels with several value scales, every single outlier, every order of mixed bands.')
check('C22', 'exploration', 'stateless exploration of all operation histories on the real objects with forked readers',
      'Every sequence up to depth 4-6 (quick) or 5-9 (thorough) over alphabets of 3-8 operations for several matrix widths, layouts and number types.')
check('C18', 'exploration', 'bounded-exhaustive enumeration of archetype option combinations and small spectra through the real code against exact non-negative least squares',
      'Degree 0-3, per-camera, prior, neighbours, camera orders and types with archetypes (quick: 3 of 9 configurations per combination); coefficients asserted below condition number 1e6.')
check('C16', 'exploration', 'bounded-exhaustive enumeration of reported fits through the real code, each evaluated against an independent rendering and the optimum at its redshift',
      'All template kinds, absorption models, three redshift ranges, camera orders, masks, MPI rank counts and archetype modes listed; reported chi2 compared within the accuracy of the parabola minimum.')
check('C13', 'exploration', 'bounded-exhaustive enumeration of input files, selections and rank counts through the real reader, each spectrum recomputed from target, exposure and band',
      'All row orders up to 3-4 rows in one and 2+2 rows in two files, all ordered selections, all ranges, 1-4 ranks on the simulated communicator; desispec helpers trusted.')
check('C06', 'exploration', 'bounded-exhaustive enumeration of written contents and read selections through the real writers and readers, and of restarts of real fits',
      'All template lists up to 3 types, target orders up to 3, every ordered read selection of up to 3 targets (quick: every 7th combination of types and orders); columns compared at their stored precision; restart without priors.')
check('C14', 'exploration', 'bounded-exhaustive enumeration of options, selections, inputs and rank counts through the real command, each product compared with a plain run and an independent rendering',
      'Option lattice as listed in DESIGN.md on files of up to 6 targets; refusals must precede the fit; models recomputed from the reported coefficients; MPI on the simulated communicator.')
check('C15', 'exploration', 'bounded-exhaustive enumeration of identifiers, plate/frame files, selections and options through the real reader and command, each spectrum recomputed from plate, MJD and fiber',
      'All boundary triples in 7 integer types, all orders of up to 4 fibers, frames of all camera subsets, two plates; command compared with a plain run and with direct calls.')
check('C17', 'exploration', 'bounded-exhaustive enumeration of template sets, naming forms and headers through the real discovery, loading, writing and read-back code',
      'Every ordered subset of up to 3 of 8 templates in 22 naming forms; full lattice of template keywords; headers of every subset read back with and without file keywords; both commands.')
check('C19', 'model_checking', 'explicit enumeration of input trees, partitions and run/fail/retry histories of the real script, with state matching, and real and simulated MPI launches',
      'Bounded input sets, group counts and histories as listed in DESIGN.md; the launched command is a stand-in in histories (real commands at a few points).')
check('C04', 'fault_enumeration', 'exhaustive enumeration of kills, partial writes, errors and signals at every file system call of the real writers (ptrace)',
      'Every call of the writers with kill, torn write, transient and lasting errors; the commands with kill and lasting full disk (quick); no power loss; one fault per run.')
check('C21', 'exploration', 'bounded-exhaustive differential exploration of the real GPU code (CUDA kernels compiled as C++ and run under a controlled, bounds-checked thread scheduler) against the CPU code',
      'cupy is a stand-in that refuses implicit conversions; threads of a kernel run one after the other in several orders, no data races inside one access; singular fits and exact ties are not compared.')
check('C23', 'exploration', 'bounded-exhaustive enumeration of option combinations of the real commands, every fit and scan compared with a library fit with independently translated settings',
      'Options alone, in pairs (quick: every second pair) and all archetype sub-options together on files of up to 3 targets and 3 bands; the fitting library itself is judged by the other properties.')
check('C24', 'model_checking', 'stateless enumeration of all event histories of the real viewer against an explicit two-variable state machine, figure contents compared with the inputs in every state',
      'Depth 3 from the start (thorough 4) and every word of 4 events (thorough 5) inside long histories, on 4 tables; matplotlib without rendering; star and subtype scans, which the viewer does not draw, are not required.')
