"""Writes /verif/properties.jsonl (kept as code so that ids and anchors stay reviewable)."""
import json, pathlib

S = "src/sleplet/"
P = []


def add(id_, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id_, len(title))
    P.append(dict(
        id=id_, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(
            files=[S + f for f in files],
            state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
            mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))


SOLVERS = ["slepian/slepian_polar_cap.py", "slepian/slepian_limit_lat_lon.py",
           "slepian/slepian_arbitrary.py", "meshes/mesh_slepian.py", "_mesh_methods.py"]

add("C01", "Eigensolutions are right for every worker count and worker schedule",
    "Building the Slepian functions of a polar cap, polar gap, latitude-longitude rectangle, masked region or mesh "
    "region yields exactly the eigensolutions of that region's concentration problem: eigenvalues in descending order, "
    "orthonormal eigenvectors, agreeing with an independent direct computation. "
    "This holds for every configured number of workers, from one to more than there are matrix rows, and for every "
    "order in which the parallel workers run and interleave. "
    "No matrix entry is ever skipped, computed from half-written data or overwritten by another worker.",
    ["schedules", "configurations", "inputs"],
    "every interleaving of the parallel workers, every worker count >= 1, every supported region type, size and band-limit",
    "The tests build each basis once with the default worker count under whatever schedule the machine happens to "
    "produce, and compare statistics of the result; a race, a worker count larger than the matrix, or a chunk that "
    "is skipped only shows under schedules and counts they never sample.",
    SOLVERS + ["_parallel_methods.py", "_array_methods.py", "_slepian_arbitrary_methods.py"],
    [("disjoint row chunks per worker", "_parallel_methods.py"),
     ("symmetric fill of the other triangle after the workers joined", "_array_methods.py"),
     ("thread pool joined before the shared matrix is read", "slepian/slepian_polar_cap.py"),
     ("prange over degree rows", "slepian/slepian_limit_lat_lon.py")],
    [("shared matrix", "the concentration matrix workers fill in place", "_parallel_methods.py"),
     ("per-harmonic field cache", "fields shared between workers of the masked-region solver", "slepian/slepian_arbitrary.py")],
    ["eigenvalues", "eigenvectors", "orders"])

add("C02", "A failed worker never turns into a silently wrong basis",
    "If any parallel worker fails part way (out of memory, shared memory cannot be attached, an error in its "
    "computation) while a Slepian basis is being built, the construction reports the failure to the caller or still "
    "returns the right basis; it never returns a basis computed from a partly filled matrix. "
    "Nothing computed from a partly filled matrix is ever stored: after the failure has gone away, constructing the same object "
    "again gives the right basis.",
    ["fault_sequences", "schedules"],
    "every worker, every point inside a worker at which an allocation, attachment or computation can fail, under every schedule",
    "No test makes a worker fail; the pool's results are not looked at by any test, and a lost exception leaves a "
    "plausible-looking matrix of zeros.",
    ["slepian/slepian_polar_cap.py", "slepian/slepian_arbitrary.py", "meshes/mesh_slepian.py", "_parallel_methods.py"],
    [("results of the worker pool are consumed, so a worker's exception reaches the caller before the matrix is used", "slepian/slepian_polar_cap.py")],
    [("pool futures", "outcome of every worker", "slepian/slepian_polar_cap.py")],
    ["constructor result or exception", "files in the data directory", "second construction"])

add("C03", "A crash at any point never poisons later runs",
    "If the process is killed or the machine loses power at any instant while a basis, mesh decomposition or mask is "
    "being computed, saved or downloaded, every later run using the same data directory works without manual cleaning and returns the right result. "
    "A result already stored by an earlier completed run is never destroyed by the crash.",
    ["crash_points", "histories"],
    "every crash point in every write, flush, rename and download, process kill and power loss, repeated crashes, any sequence of constructions before and after",
    "The tests never crash; they run in one process on whatever state the data directory has, and a torn file only "
    "matters to the next process.",
    SOLVERS + ["_mask_methods.py", "_data/setup_pooch.py"],
    [("temporary file, flush to disk, rename into place", "_data/setup_pooch.py"),
     ("unreadable stored file is treated as absent", "slepian/slepian_polar_cap.py")],
    [("data directory", "computed eigensolutions and masks", "_data/setup_pooch.py"),
     ("download cache", "files fetched from the archive", "_data/setup_pooch.py")],
    ["constructors in the next process", "data directory contents"])

add("C04", "Disk and system-call errors never corrupt results or the store",
    "When creating, writing, flushing, renaming or reading a stored file fails (disk full, I/O error, permission denied, "
    "too many open files, short write), the construction either returns the right result or reports an error, never a "
    "wrong result. "
    "No incomplete file is left under a name a later run would load, and once the fault has gone the same construction succeeds and is right.",
    ["fault_sequences", "histories"],
    "every file operation made by a construction, every errno a deployment meets, any number of faults, followed by fault-free retries",
    "The tests run on a healthy disk only.",
    SOLVERS + ["_mask_methods.py", "_data/setup_pooch.py"],
    [("write-then-rename save with cleanup on error", "_data/setup_pooch.py")],
    [("data directory", "computed eigensolutions and masks", "_data/setup_pooch.py")],
    ["constructor result or exception", "data directory contents", "retry"])

add("C05", "Reusing stored results is transparent for every history of requests",
    "For any sequence of Slepian, mask and mesh constructions sharing a data directory, within one process or over "
    "several, each construction returns what it would return in a fresh, empty data directory (up to the usual sign or phase and "
    "rotations inside equal eigenvalues, and beyond the Shannon number only what was stored). "
    "Results stored for one configuration are never used for another: different angles however close (to a billionth of a degree), band-limits, region kinds, orders, "
    "masks, meshes or numbers of basis functions never share an entry.",
    ["histories", "configurations"],
    "every finite sequence of constructions over region kinds, angles, band-limits, orders, meshes and basis sizes, with process restarts in between",
    "The tests use a few fixed configurations whose names happen not to collide and never compare a reloaded basis "
    "with a fresh one; collisions need two particular configurations in a particular order.",
    SOLVERS + ["slepian/region.py", "_mask_methods.py", "_string_methods.py", "_data/setup_pooch.py"],
    [("file name derived from the region, band-limit and Shannon number", "slepian/region.py"),
     ("per-order selection from the stored all-order solution", "slepian/slepian_polar_cap.py")],
    [("data directory", "computed eigensolutions and masks keyed by name", "_data/setup_pooch.py")],
    ["eigenvalues", "eigenvectors", "order", "mesh basis", "mask"])

add("C06", "A damaged stored file is recomputed, not trusted and not fatal",
    "If a stored eigenvalue, eigenvector, order, mesh or built-in mask file is missing, empty, truncated or overwritten with bytes that are "
    "no longer a readable array, any subset of them in any combination, the next construction recomputes and returns the right result instead of "
    "failing or mixing in the damaged data. "
    "Afterwards the store is whole again: later constructions load it without recomputing.",
    ["fault_sequences", "histories"],
    "every subset of stored files, every truncation length and kind of unreadable damage, every solver",
    "No test damages a file; the loading code is exercised only on files that do not exist or are whole.",
    SOLVERS + ["_mask_methods.py", "functions/africa.py", "functions/south_america.py"],
    [("loading errors fall through to recomputation and re-save", "slepian/slepian_limit_lat_lon.py")],
    [("data directory", "computed eigensolutions and masks", "_data/setup_pooch.py")],
    ["constructor result", "data directory contents", "third construction"])

add("C07", "Processes sharing a data directory never harm one another",
    "Any number of processes building the same or different bases at the same time in one data directory, each with its own "
    "worker count, all finish with the right results. "
    "None of them ever sees another's half-written file, and one of them being killed at any moment does not make the others, or later runs, wrong or fail.",
    ["schedules", "crash_points", "configurations"],
    "every interleaving of the file operations of several processes, with kills of any of them",
    "The tests run in one process at a time with the store to themselves.",
    SOLVERS + ["_mask_methods.py", "_data/setup_pooch.py"],
    [("atomic replacement of stored files, unique temporary names", "_data/setup_pooch.py")],
    [("data directory", "shared by all processes", "_data/setup_pooch.py")],
    ["constructor results of all processes", "data directory contents"])

add("C08", "Published data is verified and preferred, whatever the network does",
    "Data read from the public archive is used only if it is byte-for-byte what the archive's catalogue says: truncated, corrupted, "
    "swapped or interrupted downloads never reach a result, are retried a bounded number of times, and otherwise end in an error. "
    "A file that the archive publishes takes precedence over a local file of the same name; a stale or damaged cached copy is "
    "replaced; transient network failures within the retry budget are survived.",
    ["fault_sequences", "histories"],
    "every sequence of connection failures, HTTP errors, truncations, corruptions and delays over catalogue and file requests, and every prior cache content",
    "The tests need the real archive or run without a network; no test corrupts or interrupts a transfer.",
    ["_data/setup_pooch.py", "_data/create_earth_flm.py", "_data/create_wmap_flm.py", "_mask_methods.py"],
    [("checksummed fetch with retry", "_data/setup_pooch.py"), ("archive registry consulted before the local directory", "_data/setup_pooch.py")],
    [("download cache", "verified copies of archive files", "_data/setup_pooch.py"),
     ("registry", "file names and checksums published", "_data/setup_pooch.py")],
    ["coefficients of data-driven maps", "eigensolutions loaded from the archive", "exceptions"])

add("C09", "An archive outage neither blocks local work nor is remembered",
    "When the archive cannot be reached or answers nonsense, anything that is stored locally, that the process has already fetched, or that the archive does not publish "
    "and can be computed is still delivered and right, from the very first request of the process, within a bounded number of attempts. "
    "Only requests for data the archive publishes may fail, and as soon as the archive is reachable again the same process gets that data without a restart.",
    ["fault_sequences", "histories"],
    "every pattern of outages and recoveries over the life of a process, every order of requests",
    "Offline test runs see one permanent outage; whether the first request fails differently from the second, or whether recovery is noticed, is never asserted.",
    ["_data/setup_pooch.py"],
    [("registry published only after it loaded, retried at the next lookup", "_data/setup_pooch.py")],
    [("registry", "per-process knowledge of the archive", "_data/setup_pooch.py")],
    ["constructor results", "coefficients of data-driven maps", "number of requests sent"])

add("C10", "Threads of one program can use the library at the same time",
    "Several threads of one process constructing bases, meshes and data-driven maps concurrently, including the very first use of the library, "
    "the same object in several threads, and with a shared empty store, each get the result they would get alone. "
    "No thread fails, waits for ever or sees another thread's intermediate state.",
    ["schedules", "histories"],
    "every interleaving of two or more threads at line granularity around the shared store, registry and solver state",
    "The tests call the library from one thread; lazily initialised global state is only ever initialised by a single caller.",
    ["_data/setup_pooch.py"] + SOLVERS,
    [("registry initialised locally, then published", "_data/setup_pooch.py"), ("atomic saves", "_data/setup_pooch.py")],
    [("registry", "process-wide lazily loaded state", "_data/setup_pooch.py")],
    ["constructor results", "exceptions", "completion"])

add("C11", "Shared memory, threads and temporary files are released on every exit path",
    "However a construction ends (success, invalid worker setting, worker failure, allocation failure, disk error, interrupt while waiting), "
    "the process keeps no shared-memory segment, worker thread, open file or temporary file of its own once the call has returned or raised. "
    "Memory is never read after it has been released, and constructing the same objects over and over does not accumulate resources.",
    ["fault_sequences", "schedules", "histories"],
    "every failing allocation, attach, file or worker operation, every interrupt point at which the caller is waiting, repeated constructions",
    "The tests take only the success path, and leaked segments outlive the process unnoticed.",
    ["_parallel_methods.py", "slepian/slepian_polar_cap.py", "slepian/slepian_arbitrary.py", "meshes/mesh_slepian.py"],
    [("close and unlink of the shared segments in all paths", "_parallel_methods.py")],
    [("named shared-memory segments", "the matrices shared between workers", "_parallel_methods.py")],
    ["segments, threads, descriptors, temporary files after the call"])

add("C12", "Noise and sky simulations are reproducible whatever ran before or alongside",
    "The noisy and simulated signals (noise on harmonic, Slepian and mesh signals, the noise maps, the simulated microwave background) depend only on their arguments: the same request gives bit-for-bit "
    "(to floating-point rounding where a Fourier or eigenvector computation takes part) the same coefficients in any process, after any other calls, whatever the state of the global random generators, in any thread and under any interleaving. "
    "Generating them never disturbs the caller's own random streams.",
    ["histories", "schedules"],
    "every history of earlier library calls and reseedings of global generators, every interleaving of concurrent requests",
    "Tests compare a single realisation within one process in a fixed order.",
    ["noise.py", "_data/create_wmap_flm.py", "functions/noise_earth.py", "functions/wmap.py", "functions/slepian_noise_africa.py", "meshes/mesh_noise_field.py"],
    [("a private generator with a fixed seed for every realisation", "noise.py")],
    [("random generator", "local to each call", "noise.py")],
    ["coefficients", "signal-to-noise values", "global generator state"])

add("C13", "Library calls never modify their inputs or other live objects",
    "Public transforms, wavelet, convolution, smoothing, thresholding and plotting calls leave every array and object passed to them, and "
    "every other object in use, exactly as it was (a map that is itself asked to convolve or translate only notes that it is no longer real-valued). "
    "So calls on shared data from several threads give, under every interleaving, what they give one at a time.",
    ["schedules", "histories", "inputs"],
    "every sequence and every interleaving of calls sharing arrays, Slepian objects and meshes",
    "Tests check return values, not that inputs are untouched, and never call from two threads.",
    ["noise.py", "harmonic_methods.py", "slepian_methods.py", "wavelet_methods.py", "_convolution_methods.py", "plot_methods.py", "functions/coefficients.py", "meshes/mesh_coefficients.py"],
    [("results built in fresh arrays", "slepian_methods.py")],
    [("coefficient arrays, bases", "shared between calls", "slepian/slepian_functions.py")],
    ["inputs before and after", "concurrent results"])

add("C14", "Slepian analysis and synthesis agree for a basis obtained in any way",
    "Whatever way a basis was obtained (computed, reloaded, downloaded, recomputed after damage or a crash), analysing the harmonic (on meshes, Fourier) coefficients of a signal "
    "synthesised from Slepian coefficients below the Shannon number gives those coefficients back. "
    "Slepian wavelet coefficients synthesise back to the coefficients they were computed from.",
    ["histories", "inputs"],
    "every supported region, every history of the store that produced the basis, every coefficient vector",
    "Tests check one map and one region with whatever basis is at hand, with loose tolerances.",
    ["slepian_methods.py", "slepian/_slepian_decomposition.py", "meshes/_mesh_slepian_decomposition.py", "wavelet_methods.py", "functions/slepian_wavelets.py", "meshes/mesh_slepian_wavelets.py"],
    [("orthonormal stored eigenvectors, at least as many as the Shannon number", "slepian/slepian_functions.py")],
    [("stored eigenvectors", "possibly truncated at the Shannon number", "slepian/slepian_arbitrary.py")],
    ["round-trip coefficients"])

add("C15", "A plot command's figure depends only on its arguments and settings",
    "The figure that a sphere or mesh plot command shows (its data, colour range, camera and suggested file name) depends only on the command-line arguments and the documented environment settings. "
    "It is the same on an empty store, with stored results, with the archive up or down, for any worker count and schedule, after a crash of an earlier command, or when an earlier command ran in the same process.",
    ["histories", "configurations", "schedules", "crash_points"],
    "every supported command line run after every history of earlier commands, outages and crashes",
    "The plot scripts have no tests that look at the figure.",
    ["_scripts/plotting_on_sphere.py", "_scripts/plotting_on_mesh.py", "plotting/_create_plot_sphere.py", "plotting/_create_plot_mesh.py", "plot_methods.py", "_plotly_methods.py"],
    [("each command rebuilds everything from its arguments", "_scripts/plotting_on_sphere.py")],
    [("class lists and default layout objects", "module level state shared by commands", "_class_lists.py")],
    ["the figure handed to the viewer"])

add("C16", "Mesh bases stay consistent with what was derived from them",
    "The mesh basis is reproducible: computing it again, in another process or after its files were lost, gives the same basis functions. "
    "So stored mesh Slepian functions and Fourier coefficients computed earlier still describe the same functions on the mesh after any subset of the stored files has been lost, damaged or recomputed.",
    ["histories", "fault_sequences"],
    "every mesh, every basis size, every history of losing and recomputing any subset of the stored mesh files, in any process",
    "Each test computes or loads a mesh basis once.",
    ["_mesh_methods.py", "meshes/mesh.py", "meshes/mesh_slepian.py"],
    [("deterministic start vector of the iterative eigensolver", "_mesh_methods.py")],
    [("mesh basis files and mesh Slepian files", "stored separately, lost separately", "_mesh_methods.py")],
    ["mesh basis functions", "Slepian functions evaluated on the vertices"])

add("C17", "Completed work is saved and reused, not repeated",
    "After a construction has completed without errors, constructing the same object again, in the same or a later process, loads it: it starts no solver workers, writes no files and gives the same result (a single order of a polar cap, which is never stored, excepted). "
    "Published files are downloaded at most once while the cached copy is intact, and apart from such downloads the archive's catalogue is fetched at most once per process.",
    ["histories", "configurations"],
    "every sequence of completed constructions and restarts, worker counts and band-limits",
    "Tests do not observe whether work is repeated or bytes are rewritten.",
    SOLVERS + ["_mask_methods.py", "_data/setup_pooch.py"],
    [("results saved under the name that is looked up", "slepian/slepian_polar_cap.py"), ("registry kept for the life of the process", "_data/setup_pooch.py")],
    [("data directory", "computed eigensolutions and masks", "_data/setup_pooch.py")],
    ["writes, worker starts and requests during the second construction"])

# ---- pure functions: stated, not claimed -------------------------------------------------
add("C20", "The region kind is decided by its angles, with polar cap first",
    "A region given by angles is classified as polar cap or gap, latitude-longitude rectangle or mask from its non-default settings alone, in that order of precedence, and an unspecified region is rejected.",
    ["inputs"], "every combination of angles, gap and mask name",
    "The tests try a few combinations.", ["slepian/region.py", "_bool_methods.py"],
    [("ordered checks on defaults", "slepian/region.py")], (), ["the detected kind"])
add("C21", "Wavelet generating functions tile the whole band",
    "For every band-limit, dilation and minimum scale the squared generating functions sum to one at every degree, so wavelet analysis loses nothing.",
    ["inputs"], "every band-limit, dilation factor > 1 and admissible minimum scale",
    "The tests sample one or two settings.", ["wavelet_methods.py"],
    [("tiling from the wavelet library", "wavelet_methods.py")], (), ["generating functions"])
add("C22", "Harmonic up-sampling, rotation and inversion preserve the signal",
    "Raising the resolution of a band-limited signal leaves its low-degree coefficients unchanged, rotations preserve power per degree, and forward undoes inverse.",
    ["inputs"], "every coefficient vector, angle and pair of band-limits",
    "The tests use a handful of maps.", ["harmonic_methods.py"],
    [("zero padding of high degrees", "harmonic_methods.py")], (), ["coefficients"])
add("C23", "Translation is the sifting convolution with the Dirac delta",
    "Translating a signal by the sifting convolution equals the coefficient-wise product with the conjugated basis functions at the target point, and convolution with a delta returns the signal.",
    ["inputs"], "every signal and translation angle", "The tests use one angle and a few maps.",
    ["_convolution_methods.py", "functions/coefficients.py"],
    [("coefficient-wise product", "_convolution_methods.py")], (), ["coefficients"])
add("C24", "Added noise has the requested signal-to-noise ratio",
    "The noise added to a signal has, in expectation, exactly the power that the requested signal-to-noise ratio prescribes.",
    ["inputs"], "every signal and every requested ratio", "The tests do not measure the expected power.",
    ["noise.py"], [("standard deviation from the signal's power", "noise.py")], (), ["signal-to-noise values"])
add("C25", "Invalid settings are rejected when the object is constructed",
    "Orders beyond the band-limit, zero caps, wrong array lengths, unknown masks and extra arguments of the wrong count are rejected with an error by the constructor, for every class and every value.",
    ["inputs"], "every constructor and every argument value", "The tests try a few bad values.",
    ["slepian/slepian_polar_cap.py", "functions/flm.py", "functions/fp.py", "slepian/region.py"],
    [("field validators", "_validation.py")], (), ["exceptions"])
add("C26", "Normalised plots map the field linearly onto the unit interval",
    "A normalised field spans exactly zero to one, linearly in the original values, constant fields are left alone, and the plotting resolution is a power-of-two refinement bounded for large band-limits.",
    ["inputs"], "every field and band-limit", "The tests use one field.",
    ["plot_methods.py"], [("min-max scaling", "plot_methods.py")], (), ["plotted field"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
