# Texts of MANIFEST.json, read by gen_manifest.py.
_OMP = ('seeded search over thread schedules: the extension is compiled from the current sources with every load and store instrumented and '
        'runs on a simulated OpenMP runtime that decides team sizes, chunk assignment and every preemption; oracle: ')
TECH = {
 'C01': _OMP + 'the same computation with a team of one',
 'C02': _OMP + 'the same computation with a team of one',
 'C03': _OMP + 'direct numpy models of neighbour queries, nearest centres, patch membership and coordinates, and the one-thread outcome',
 'C12': _OMP + 'the same seeded operation with one thread, in a different history of random use, and a direct model of genuine pairs',
 'C04': 'seeded search over message schedules of simulated MPI ranks (delay, buffering, stalls); oracle: the single-process result',
 'C05': 'seeded search over message schedules of simulated MPI ranks (delay, buffering, stalls); oracle: the single-process result',
 'C06': 'seeded search over message schedules of simulated MPI ranks (delay, buffering, stalls); oracle: the serial covariance',
 'C07': 'seeded search over operation histories, schedules of simulated MPI ranks and checkpoints; oracle: one-step accumulation',
 'C08': 'seeded search over I/O fault sequences injected at the system-call boundary (ENOSPC, EIO, short and interrupted writes); oracle: the fault-free file contents and the object before the write',
 'C09': 'seeded search over crash points (kill with torn last write) at the system-call boundary, followed by restart; oracle: the data written',
 'C10': 'seeded search over crash points, disk faults and schedules of ranks sharing a directory; oracle: in-memory processing',
 'C11': 'seeded search over histories of catalog uses with read faults; oracle: an eager in-memory catalog',
 'C13': 'seeded search over histories of uses stopped at seeded points (KeyboardInterrupt at the n-th point at which signals are looked for, n-th NumPy or C++ allocation failing, I/O error at the n-th file operation), each repeated at once, later or not at all; oracle: the same history undisturbed',
 'C14': 'seeded search over histories with copies, pickles and restarts in a new process at any step, every object then going its own way; oracle: a fresh object that replays the same linear history',
 'C15': 'seeded search over I/O faults and kills of whole tool runs followed by reruns; oracle: the library called directly',
 'C21': 'seeded search over sequences of low-memory uses with read faults, interrupts and failing allocations, and over message schedules of simulated MPI ranks; invariant checked at every return of a function of the package: the number of patches in memory',
 'C22': 'seeded search over histories of file operations with I/O faults at the system-call boundary and interrupts; invariant checked when each one ends: no file of the scratch directory is open in the process',
 'C16': 'seeded search over read fault sequences and file cuts at the system-call boundary; oracle: the data that was stored',
}
_B = 'Bounded by the number of runs in the time budget; no proof. '
NOTES = {
 'C01': _B + 'Sequentially consistent interleavings of instrumented accesses at up to 16 threads, up to a few hundred objects.',
 'C02': _B + 'Sequentially consistent interleavings of instrumented accesses at up to 16 threads, up to a hundred objects.',
 'C03': _B + 'Up to 800 objects, 20 patches, 8 threads.',
 'C12': _B + 'Up to a few hundred objects and 8 threads.',
 'C04': _B, 'C05': _B, 'C06': _B, 'C07': _B, 'C08': _B, 'C09': _B, 'C10': _B, 'C11': _B, 'C13': _B, 'C14': _B, 'C15': _B, 'C16': _B, 'C22': _B + 'No Parquet (pyarrow is not installed).', 'C21': _B + 'Up to 12 patches; memory is counted in patches, not in bytes.',
}
NA = {
 'C17': 'A pure function of the input data: no schedule, clock, I/O, fault or history changes what is being asked, so simulation has nothing to decide (what threads, patches and ranks could do to the sums is C01-C05).',
 'C18': 'A pure function of finished correlation arrays: no concurrency, time, I/O or fault is involved.',
 'C19': 'A pure function of the configuration text; failures of the files it is read from are covered under C15.',
 'C20': 'A pure function of units and coordinates: no concurrency, time, I/O or fault is involved.',
}
