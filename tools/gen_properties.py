#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the text)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Two-point results do not depend on threads or their schedule',
     'For any two-point correlation of any data, the computed pair counts, weights, mean separations and '
     'correlation values are the same whatever number of threads is requested or granted and however those '
     'threads are scheduled: counts exactly, sums up to floating-point rounding (with the same tree, whose default top depth follows the number of processors beyond eight). '
     'No pair is lost, counted twice or put in another bin because two threads ran at the same time.',
     ['schedules', 'inputs', 'configurations'],
     'Every team size, every assignment of work to threads and every interleaving of their memory accesses; all 2-pt '
     'types, bin types, metrics, coordinate systems, tolerances; auto- and cross-correlations.',
     'The reliable tests run with one OpenMP thread; even with several, a run samples one schedule the OS happens to pick.',
     ['src/Corr2.cpp', 'include/Corr2.h', 'treecorr/corr2base.py', 'treecorr/util.py'],
     [('per-thread accumulators merged under a critical section', 'src/Corr2.cpp: BaseCorr2::process'),
      ('accumulator duplication starts from zero', 'src/Corr2.cpp: Corr2::duplicate / addData')],
     [('xi, meanr, meanlogr, weight, npairs', 'binned sums', 'include/Corr2.h')],
     ['Corr2.process', 'Corr2.process_auto', 'Corr2.process_cross'])
prop('C02', 'Three-point results do not depend on threads or their schedule',
     'For any three-point correlation of any data, in every binning including the multipole one, the computed '
     'triangle counts, weights, mean side lengths and correlation values are the same whatever number of threads is '
     'requested or granted and however they are scheduled: counts exactly, sums up to floating-point rounding (with the same tree, whose default top depth follows the number of processors beyond eight). '
     'No triangle is lost, counted twice or put in another bin because two threads ran at the same time.',
     ['schedules', 'inputs', 'configurations'],
     'Every team size, assignment of work and interleaving; NNN, KKK, GGG; LogRUV, LogSAS, LogMultipole; ordered and unordered; auto, 1-2 and full cross.',
     'The reliable tests use one OpenMP thread and leave out the whole GGG suite.',
     ['src/Corr3.cpp', 'include/Corr3.h', 'include/MultipoleScratch.h', 'treecorr/corr3base.py'],
     [('per-thread accumulators and scratch space, merged under a critical section', 'src/Corr3.cpp: BaseCorr3::process, BaseCorr3::multipole')],
     [('zeta, meand*, weight, ntri', 'binned sums', 'include/Corr3.h')],
     ['Corr3.process', 'Corr3.process_auto', 'Corr3.process_cross'])
prop('C03', 'Trees, patches and neighbour queries hold under any thread schedule',
     'However the building threads are scheduled, a field holds every object exactly once: near-neighbour queries '
     'return exactly the objects within the radius, and k-means or patch-centre assignment labels every object with the '
     'patch whose given or returned centre is nearest. '
     'Patch centres, labels, single-patch selections and derived coordinates are the same for every number of threads and every schedule, up to rounding.',
     ['schedules', 'inputs', 'configurations'],
     'Every team size and interleaving in tree building, k-means refinement and assignment, patch selection and coordinate generation; all coordinate systems and split methods.',
     'The reliable tests run these regions with one thread.',
     ['src/Field.cpp', 'src/KMeans.cpp', 'treecorr/field.py', 'treecorr/catalog.py'],
     [('parallel construction of disjoint top-level cells', 'src/Field.cpp: DoBuildCells'),
      ('per-thread functors combined under a critical section', 'src/KMeans.cpp: FindCellsInPatches'),
      ('element-wise parallel loops', 'src/KMeans.cpp: QuickAssign, SelectPatch, GenerateXYZ')],
     [('cells', 'top level cells', 'include/Field.h'), ('patch centers', 'k-means state', 'src/KMeans.cpp')],
     ['Field.run_kmeans', 'Field.count_near', 'Field.get_near', 'Catalog.patch', 'Catalog.x'])
prop('C04', 'A two-point MPI run equals the single-process run',
     'When a two-point correlation is run over patches by any number of cooperating processes, the first process ends with the '
     'same correlation, pair counts, normalisation and per-patch-pair results as one process computing everything alone, '
     'each pair of patches having been counted exactly once. '
     'This holds for every number of processes, including more processes than patches, and for every speed of the processes and order of message delivery, and the run always finishes.',
     ['schedules', 'configurations', 'inputs'],
     'Rank counts, patch counts, auto/cross/one-sided patches, patch methods, low-memory mode, empty or far-apart patches; every interleaving of ranks, message delay, eager and rendezvous sends, stalled ranks.',
     'Tests use a mock with two ranks over a pipe, a few data sets and whatever timing the host gives.',
     ['treecorr/corr2base.py', 'treecorr/nncorrelation.py'],
     [('assignment of patch pairs to ranks', 'treecorr/corr2base.py: _process_all_auto, _process_all_cross'),
      ('send to rank 0 and accumulate', 'treecorr/corr2base.py')],
     [('results', 'per patch-pair partial results', 'treecorr/corr2base.py')], ['Corr2.process(comm=...)'])
prop('C05', 'A three-point MPI run equals the single-process run',
     'When a three-point correlation is run over patches by any number of cooperating processes, the first process ends with the '
     'same correlation, triangle counts, normalisation and per-patch-triple results as one process computing everything alone, '
     'each triple of patches having been counted exactly once. '
     'This holds for every number of processes and every speed of the processes and order of message delivery, and the run always finishes.',
     ['schedules', 'configurations', 'inputs'],
     'As C04, for auto, one-two and full cross-correlations of three fields, local and global patch division, ordered and unordered.',
     'Tests use a two-rank mock on a handful of inputs.',
     ['treecorr/corr3base.py', 'treecorr/nnncorrelation.py'],
     [('assignment of patch triples to ranks, local and global', 'treecorr/corr3base.py: _process_all_auto, _process_all_cross12, _process_all_cross')],
     [('results', 'per patch-triple partial results', 'treecorr/corr3base.py')], ['Corr3.process(comm=...)'])
prop('C06', 'Covariances computed by several processes equal the serial ones',
     'For every patch-based variance method, and for single or combined statistics with any user function, the covariance and design matrices estimated '
     'cooperatively by any number of processes equal those estimated by one process, on every participating process, for every interleaving. '
     'The estimate leaves the correlation results themselves unchanged.',
     ['schedules', 'configurations', 'inputs'],
     'jackknife, sample, bootstrap, marked bootstrap; cross-patch weightings; one or several correlation objects; custom functions; rank counts beyond the number of patches.',
     'Tests call the parallel path with two mock ranks only.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py'],
     [('rows of the design matrix split over ranks and reduced', 'treecorr/corr2base.py: _make_cov_design_matrix')],
     [], ['Corr2.estimate_cov(comm=...)', 'estimate_multi_cov(comm=...)', 'build_multi_cov_design_matrix(comm=...)'])
prop('C07', 'Accumulating in several steps counts every pair and triangle exactly once',
     'A correlation accumulated in any number of steps -- several processing calls that neither reset nor finish in between, partial sums merged together, '
     'with or without patches, in one process or several cooperating ones -- equals the correlation accumulated in one step over the same set of inputs. '
     'Resetting and reprocessing forgets everything accumulated before.',
     ['histories', 'schedules', 'configurations'],
     'Every sequence of process calls with the initialise/finalise options, direct auto/cross accumulations, merges, resets, copies and checkpoints, with or without MPI.',
     'Tests try one or two such sequences, none under MPI.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/nncorrelation.py'],
     [('initialize/finalize options', 'treecorr/corr2base.py: process'), ('merging', 'treecorr/corr2base.py: __iadd__, _sum')],
     [], ['process(initialize=, finalize=)', 'process_auto', 'process_cross', '+='])
prop('C08', 'A write that hits an I/O error never reports success',
     'If writing a correlation, covariance, catalog, patch-centre or statistics file meets a full disk or an I/O error at any point, the call raises an error; '
     'a call that returns normally has stored everything, whatever short or interrupted system calls happened underneath. '
     'After a failed write the object in memory is unchanged and writing it again once the fault is gone succeeds completely.',
     ['fault_sequences', 'inputs', 'configurations'],
     'ENOSPC/EIO at every write, flush, truncate and close of the file; short writes; all output formats and all kinds of output.',
     'Tests never make a write fail.',
     ['treecorr/writer.py', 'treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/catalog.py'],
     [('writers as context managers', 'treecorr/writer.py')], [], ['write', 'write_patch_centers', 'write_patches'])
prop('C09', 'Stored results survive a restart; damaged ones are never mistaken for good',
     'A correlation written with its patch results and read back in a new process gives the same values, the same further accumulated statistics and the same covariances as the original object (where only the variance of catalogs processed before the restart, which a shot-noise estimate after further processing would need, is not part of what is stored). '
     'After the writing process is killed at an arbitrary point, reading the file either raises an error or yields exactly the data that was being (or had previously been) written.',
     ['crash_points', 'histories', 'configurations'],
     'A kill after every I/O operation of a write, with the last write torn, over new and existing files; all formats; all correlation types.',
     'Tests only read files whose write completed.',
     ['treecorr/writer.py', 'treecorr/reader.py', 'treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/nncorrelation.py', 'treecorr/nnncorrelation.py'],
     [('from_file / read', 'treecorr/corr2base.py'), ('per-patch sections and parameters', 'treecorr/writer.py')],
     [], ['write', 'from_file', 'read', 'estimate_cov'])
prop('C10', 'Patch files on disk never change a result, even after crashes',
     'A catalog that keeps its patches in a directory gives the same results as one held in memory, in the run that creates the files and in every later run that finds them, '
     'also when several processes share the directory and when earlier runs were killed while writing it. '
     'Every patch file is either absent or complete, whenever a run is killed, and a run after one that was killed or failed succeeds and gives the same results. '
     'If the files cannot be used, an error is raised or they are rebuilt; data from a partial or torn file is never used silently. (The directory is for one set of data: files of other data with the same names are taken as they are.)',
     ['crash_points', 'schedules', 'histories', 'configurations'],
     'A kill at every I/O operation while patch files are written, followed by restarts; concurrent ranks using one directory; disk faults; all column combinations; low and normal memory modes.',
     'Tests write patch files once, alone and undisturbed.',
     ['treecorr/catalog.py', 'treecorr/writer.py', 'treecorr/reader.py'],
     [('patch file naming, writing and reading', 'treecorr/catalog.py: get_patches, write_patches, read_patches')],
     [('_patches', 'list of patch catalogs', 'treecorr/catalog.py')], ['Catalog.get_patches', 'Catalog.write_patches', 'Catalog.read_patches', 'process(low_mem=True)'])
prop('C11', 'Lazy loading, unloading and caching are invisible',
     'In every sequence of uses of a catalog read from a file -- loading on demand, unloading, low-memory processing, cache resizing and clearing, copying, pickling, taking patches -- '
     'every value obtained is the one an eagerly loaded in-memory catalog would give. '
     'A read that fails part way raises an error and leaves nothing half-loaded: once the fault has gone, the same use succeeds with the right values. '
     'A field cache returns the field of exactly the parameters asked for, holds at most as many fields as it was resized to, drops the least recently used first, and is unchanged by a field that could not be built.',
     ['histories', 'fault_sequences', 'configurations'],
     'Operation sequences over all input formats and patch definitions, with I/O errors and short reads at arbitrary points of any load.',
     'Tests load and unload a few times in a fixed order and never fail a read.',
     ['treecorr/catalog.py', 'treecorr/reader.py', 'treecorr/util.py', 'treecorr/field.py'],
     [('load/unload', 'treecorr/catalog.py'), ('field caches', 'treecorr/util.py: LRU_Cache')],
     [('_x ... _patch', 'loaded columns, or None', 'treecorr/catalog.py')], ['Catalog properties', 'Catalog.get_patches', 'process(low_mem=True)'])
prop('C12', 'Seeded randomness is reproducible',
     'Whatever takes a random generator -- k-means initialisation, random tree splitting, pair sampling, bootstrap resampling -- '
     'gives the same outcome for the same generator state, for every number and schedule of threads and whatever other random operations were done before. '
     'A sample of pairs always consists of distinct, genuine pairs in the requested range (exactly so for bin_slop=0), with their true separations for brute=True, and leaves the number of threads as it was.',
     ['schedules', 'histories', 'inputs'],
     'Thread teams and schedules, histories of unrelated random use, data sets, seeds.',
     'Tests check reproducibility within one process in one order with one thread.',
     ['src/Cell.cpp', 'src/Field.cpp', 'src/KMeans.cpp', 'src/Corr2.cpp', 'treecorr/field.py', 'treecorr/corr2base.py'],
     [('seeding from the given generator', 'treecorr/field.py, treecorr/corr2base.py'), ('process-wide C generator', 'src/Cell.cpp: urand')],
     [], ['run_kmeans(rng=)', 'sample_pairs', "split_method='random'", "var_method='bootstrap'"])
prop('C13', 'An interrupted or failed computation leaves nothing wrong behind',
     'If processing, loading, patch making, covariance estimation or writing is stopped at an arbitrary point -- by an interrupt, a memory failure or an I/O error -- '
     'then doing it again on the same objects gives exactly what fresh objects would give, and catalogs that were only inputs keep their values. '
     'The results of a completed computation are never altered by the failure of a later one on other objects.',
     ['fault_sequences', 'histories', 'configurations'],
     'An exception at every point of execution of each operation, failed allocations in the compiled layer, I/O errors; then a retry.',
     'Tests never interrupt an operation.',
     ['treecorr/catalog.py', 'treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/util.py', 'src/Field.cpp', 'src/Corr2.cpp'],
     [('reset on reprocessing', 'treecorr/corr2base.py: process'), ('lazy state', 'treecorr/catalog.py')], [], ['process', 'Catalog properties', 'estimate_cov', 'write'])
prop('C14', 'Copies and checkpoints are faithful and independent',
     'At any point in the life of a catalog or correlation object -- before, during or after accumulation -- a copy or a pickled and restored object behaves from then on exactly as the original would: '
     'same values, same results of further processing, merging, estimation and writing. '
     'Nothing later done to one of them changes the other.',
     ['histories', 'crash_points', 'configurations'],
     'Checkpoint and crash-restart at every step of operation sequences on all catalog and correlation kinds.',
     'Tests copy and pickle at one or two chosen moments.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/catalog.py', 'treecorr/nncorrelation.py', 'treecorr/nnncorrelation.py', 'treecorr/kkcorrelation.py'],
     [('copy, pickling and attribute sharing', 'treecorr/corr2base.py: copy, __getstate__, __setstate__')], [], ['copy', 'copy.deepcopy', 'pickle'])
prop('C15', 'The command-line tools report faults and produce what the library does',
     'A corr2 or corr3 run that ends successfully has written every requested output with the values the library computes for the same configuration. '
     'If reading an input or writing an output fails, or the run is killed, it does not end successfully, and running it again after the fault produces the correct complete outputs.',
     ['fault_sequences', 'crash_points', 'configurations'],
     'I/O errors and kills at every file operation of a run, configurations with several outputs, then a rerun over whatever was left behind.',
     'Tests run the tools once, without faults.',
     ['treecorr/exec_corr2.py', 'treecorr/exec_corr3.py', 'scripts/corr2', 'scripts/corr3', 'treecorr/config.py'],
     [('driver functions', 'treecorr/exec_corr2.py: corr2, treecorr/exec_corr3.py: corr3')], [], ['corr2', 'corr3'])
prop('C16', 'Reading a file gives its contents or an error, whatever reads return',
     'For every supported file format and row selection, the catalog read is the same however the operating system splits, delays or interrupts the reads. '
     'If a read fails or the file was cut short, the load raises an error instead of giving missing, shortened or altered columns (a text catalog carries no length: cut at a line end it is a shorter catalog, and a last row cut short may be taken for a row with missing or shorter values).',
     ['fault_sequences', 'inputs', 'configurations'],
     'Short reads, EINTR, EIO at every read; files truncated at every length; ASCII, FITS, HDF, Parquet; column subsets, row ranges, strides; patch selections.',
     'The reader tests that exist are excluded or read intact files.',
     ['treecorr/reader.py', 'treecorr/catalog.py'],
     [('format readers', 'treecorr/reader.py')], [], ['Catalog(file_name, ...)', 'read_patch_centers'])

prop('C21', 'Low-memory processing keeps few patches in memory',
     'While catalogs divided into patches are processed with low_mem=True -- two- and three-point correlations, global or local, variances, combining, in one process or in each of several -- '
     'the number of patches whose data or trees are in memory at any moment has a bound that does not depend on the number of patches (one more than the points of the correlation), in whatever order they are taken, also when an earlier use failed or was interrupted, whose left-over patches come on top. '
     'When a use completes in a single process the patches it loaded are out of memory again (over ranks, all but at most one of each catalog). A catalog split by given patch centers is never read as a whole.',
     ['schedules', 'fault_sequences', 'histories', 'configurations'],
     'Every kind of correlation, patch source and directory; failed reads, interrupts and failed allocations before a repetition; assignments of patches to ranks.',
     'Tests compare the results of low_mem=True, and look at what is loaded afterwards in a few cases; none looks while it runs.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/catalog.py'],
     [('unload after use', 'treecorr/corr2base.py, treecorr/corr3base.py: _process_all_*'), ('expanded patches', 'treecorr/corr2base.py: _make_expanded_patch')],
     [('_patches', 'list of patch catalogs', 'treecorr/catalog.py')], ['process(low_mem=True)', 'calculateVarK(low_mem=True)', 'Catalog.combine(low_mem=True)'])

prop('C22', 'No operation leaves a file open',
     'Whatever an operation on files ends with -- reading a catalog in any format, whole, cut short or failing at any point; reading and writing patches, patch centers and results; processing that reads patches when needed; the command-line tools -- '
     'when it has returned or raised, no file is still open (after an interrupt: when the exception has been dealt with; the log file of a tool stays open until its logger is closed).',
     ['fault_sequences', 'crash_points', 'histories', 'configurations'],
     'A fault (EIO, ENOSPC, EACCES, EMFILE, short and interrupted transfers) or interrupt at every file operation of every kind of use, in all formats.',
     'Tests look at results, not at open files, and no operation fails in them half way.',
     ['treecorr/reader.py', 'treecorr/writer.py', 'treecorr/catalog.py', 'treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/config.py', 'treecorr/exec_corr2.py'],
     [('readers and writers as context managers', 'treecorr/reader.py, treecorr/writer.py')],
     [], ['Catalog(file_name, ...)', 'write', 'read', 'write_patches', 'read_patches', 'process(low_mem=True)', 'corr2', 'corr3'])

# Pure functions of their inputs: listed, not claimed (see DESIGN.md / MANIFEST not_applicable).
prop('C17', 'Binned two- and three-point sums equal the direct sums',
     'With zero tolerance, the tree algorithm gives for every bin exactly the pairs or triangles a direct double or triple loop finds, with the right weights, projections and metrics.',
     ['inputs', 'configurations'], 'All data, metrics, coordinate systems and binnings.',
     'Tests compare a few data sets with brute force.',
     ['src/Corr2.cpp', 'src/Corr3.cpp', 'include/BinType.h', 'include/Metric.h', 'include/ProjectHelper.h'],
     [('tree recursion and bin tests', 'src/Corr2.cpp: process11')])
prop('C18', 'Derived statistics equal their defining integrals',
     'Aperture-mass, E/B-mode, density-contrast and compensated estimators computed from a correlation are the documented linear combinations of its bins, with matching variances.',
     ['inputs'], 'All correlations, all radii.', 'Tests use a few analytic fields.',
     ['treecorr/ggcorrelation.py', 'treecorr/gggcorrelation.py', 'treecorr/ngcorrelation.py', 'treecorr/nncorrelation.py'],
     [('calculateMapSq and relatives', 'treecorr/ggcorrelation.py')])
prop('C19', 'Configuration is interpreted identically however it is given',
     'A parameter given in a dict, keyword, config file of any format or on the command line has the same meaning, aliases included, and invalid or unknown ones are rejected.',
     ['inputs', 'configurations'], 'All parameters and sources.', 'Tests sample parameters.',
     ['treecorr/config.py'], [('check_config / merge_config', 'treecorr/config.py')])
prop('C20', 'Units and coordinate conversions are consistent',
     'Input and separation units, spherical, Cartesian and distance coordinates convert into each other consistently in catalogs, binning and output.',
     ['inputs'], 'All units and positions.', 'Tests sample a few.',
     ['treecorr/catalog.py', 'treecorr/util.py', 'treecorr/corr2base.py'], [('unit scaling', 'treecorr/catalog.py')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
