"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     **({"state": state} if state else {}),
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     **({"observe_at": observe} if observe else {}),
                     hook_needed=None)))


FT, FI, ZB, GR, DG, PG, PR = ("zoidberg/" + x for x in (
    "fieldtracer.py", "field.py", "zoidberg.py", "grid.py", "stencil_dagp_fv.py", "poloidal_grid.py", "progress.py"))

prop("C01", "Remote tracing gives every start point its own field line",
     "When field lines are traced through the remote tracing service, every start point gets exactly the positions the service computes for that point on each requested plane, in the caller's array shape and order, whatever the chunk size, the order in which chunks finish, their latencies, and which requests fail, hang or are retried. "
     "If some chunk is never answered correctly (errors, hangs, or replies with too few or too many lines) the call raises instead of returning missing, invented or another point's positions. "
     "The caller's start-point arrays are left unchanged.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "all start-point sets and shapes, plane lists in either direction, chunk sizes, both device orientations, completion orders, latencies, and sequences of failed/hung/short/long replies",
     "No test touches the remote tracer: it needs a network service, a process pool and timeouts. Chunk/retry interleavings cannot be sampled by a unit test.",
     [FT], [("chunked submission to a worker pool, ordered collection, resubmission of a failed chunk", "FieldTracerWeb.follow_field_lines"),
            ("one request per plane, unpacking of the reply", "FieldTracerWeb._follow_field_lines")],
     ["returned array", "exception"])

prop("C02", "Remote tracing: retry budget, timeouts and resources are honoured",
     "A chunked remote tracing call with a retry budget of N returns the full result whenever fewer than N of its requests fail or outlast the timeout in total, raises the failure once N of them have (the first one if N is 0 or 1), and never waits on one request longer than the timeout in force, where a value given to the call overrides the tracer's, which overrides the default (3 tries, 1800 s). "
     "Every call therefore ends in bounded time (at once if the user interrupts it), releases its workers, and leaves the tracer usable for later calls. "
     "Creating a tracer while the service is unreachable or unhealthy fails promptly, without starting a trace.",
     ["schedules", "fault_sequences", "configurations"],
     "all budgets, timeouts (call, tracer, default), numbers of chunks, and placements of errors, hangs and slow replies over chunks and attempts",
     "Timeouts are half an hour by default and need a service that hangs; no test exercises them.",
     [FT], [("shared retry counter, per-wait timeout, pool as context manager", "FieldTracerWeb.follow_field_lines"),
            ("availability probe", "FieldTracerWeb.__init__")],
     ["simulated time at return", "exception", "pool state"])

prop("C03", "Requests to external field services carry exactly what was asked",
     "Each request that zoidberg sends to an external tracing or field service describes exactly the caller's question: the start or evaluation points in Cartesian coordinates of the right toroidal plane, the magnetic configuration (identifier, coil currents or caller-supplied object), the tracing direction for the device's orientation, and the accuracy option of that call. "
     "Nothing of an earlier, failed, retried or concurrent call leaks into it, and a configuration object supplied by the caller is not changed. "
     "Answers are converted back to cylindrical components at the caller's points in the caller's shape.",
     ["histories", "schedules", "inputs", "configurations", "fault_sequences"],
     "all sequences and interleavings of calls with mixed directions, step sizes, tolerances, configurations and faults, on the W7-X web services and the fusionsc backend",
     "The services are unreachable from the tests; direction and configuration mistakes only show against a peer that honours them.",
     [FT, FI], [("request assembly", "FieldTracerWeb.getConfig, FieldTracerWeb._follow_field_lines, FusionSCTracer.follow_field_lines"),
                ("configuration to coil currents", "_set_config"), ("point conversion", "W7X_vacuum._calc_B, W7X_vacuum_on_demand, FusionSCField")],
     ["requests received by the simulated services", "returned arrays"])

prop("C04", "Cached traces are indistinguishable from fresh traces",
     "A tracer wrapped in the on-disk trace cache returns, after any history of calls, failed calls and process restarts (each tracer having a cache name of its own), exactly what the wrapped tracer returns for the same start points, planes and tracing options. "
     "Two questions that differ in any start coordinate, any plane or any given option never share an answer, even if their numbers look alike when strung together, and changing a returned array does not change later answers. "
     "A question that was already answered is not sent to the wrapped tracer again.",
     ["histories", "inputs", "configurations"],
     "all sequences of questions, including near-identical ones, with failing traces and restarts in between",
     "The cache has no test at all; collisions and stale answers depend on the history of earlier questions.",
     [FT], [("digest of the question as file name; text file with full precision", "CachingFieldTracer")],
     ["returned arrays", "calls reaching the wrapped tracer"])

prop("C05", "Trace cache survives crashes, disk faults and concurrent processes",
     "If a process using the trace cache is killed, loses power, runs out of disk space or hits an I/O error at any moment, no later call ever returns a wrong trace, and once the disk works again every question is answered correctly without manual clean-up. "
     "While a fault is active a call returns the correct trace or raises. "
     "The same holds when several processes use the same cache at the same time.",
     ["crash_points", "fault_sequences", "schedules", "histories"],
     "all positions of kill, power loss, torn or short write, full disk, I/O error in the sequence of file operations, and all interleavings of two processes' file operations",
     "Requires crashing between individual system calls; the existing tests never write a cache.",
     [FT], [("cache entry written to the side and moved into place", "CachingFieldTracer.follow_field_lines")],
     ["returned arrays after restart"])

prop("C06", "W7-X field service: one failure is masked, repeated failure is reported",
     "Evaluating the W7-X field through the web service returns the service's field at the caller's points, correctly ordered and rotated to cylindrical components, even if one request of an evaluation fails or times out. "
     "If the repeated request fails too, or the reply is incomplete, that error reaches the caller within bounded time, no made-up field is returned, and later evaluations work. "
     "An interrupt by the user is never swallowed or retried.",
     ["fault_sequences", "histories", "inputs"],
     "all point sets and configurations, and all sequences of errors, timeouts, incomplete replies and interrupts over the requests",
     "Needs a failing network service; no test covers the W7-X fields.",
     [FI], [("retry loop with request timeout", "W7X_vacuum._calc_chunk"), ("rotation", "W7X_vacuum.field_values, W7X_vacuum_on_demand")],
     ["returned field components", "exception", "simulated time"])

prop("C07", "Saved W7-X field files are complete or absent, and equal a recomputation",
     "Loading a W7-X vacuum or plasma field from its saved file (including one converted from the old format) gives exactly what computing it again would give, for every history of requested resolutions, ranges and configurations. "
     "If the process is killed, loses power, runs out of disk space or hits an I/O error at any moment while a field is saved, later runs either recompute or load the complete field; they never load a truncated or wrong one, and need no manual clean-up.",
     ["crash_points", "fault_sequences", "histories", "configurations"],
     "all fault positions in the file operations of saving, converting and loading, over sequences of process lives with different requests",
     "Needs the web service and crashes between system calls; not tested at all.",
     [FI], [("file named after the request, written to the side and moved into place", "W7X_vacuum.field_values, W7X_vacuum.plasma_field")],
     ["returned field arrays in later process lives"])

prop("C08", "Interrupted finite-volume stencil generation resumes to the same file",
     "Adding the finite-volume perpendicular-diffusion coefficients to a grid file can be interrupted at any moment (user interrupt, exception, disk error, process kill) and continued in a later session on the same file; when it finishes, every coefficient equals that of an uninterrupted run and all other contents of the file are unchanged. "
     "Planes finished before an interrupt are not computed again. "
     "If a kill or disk error left the file unreadable, reopening it fails loudly; it never resumes into a file with wrong or missing coefficients.",
     ["crash_points", "fault_sequences", "histories"],
     "all interruption points (source line, file operation) and numbers of resume sessions, for slab and curved grids",
     "The tests run generation once to the end; interruption points number in the thousands.",
     [ZB, DG], [("progress counter in the file, data written before the counter", "MapWriter.add_dagp")],
     ["variables of the grid file"])

prop("C09", "A grid file that carries its identifier and sizes is complete",
     "After an export that creates the grid file is interrupted at any moment (kill, user interrupt, exception, full disk, I/O error), a grid file that opens and carries the grid identifier and the grid sizes contains every map, metric and position variable with the exact values of an undisturbed export. "
     "An export that meets a write error raises; it never reports success for a damaged file. "
     "This also holds when an older grid file of the same name is overwritten.",
     ["crash_points", "fault_sequences", "configurations"],
     "all interruption points (file operation or source line) of exports with all writer options, onto new and existing files",
     "Tests only write files to completion on a healthy disk.",
     [ZB], [("identifier and sizes are written last", "MapWriter.add_maps, MapWriter._final"), ("file closed on exceptions", "MapWriter.__exit__")],
     ["variables and attributes of the grid file"])

prop("C10", "A failed export leaves grid, field and maps reusable",
     "If writing a grid file fails or is interrupted at any moment, the in-memory grid, field and maps are as before, and exporting them again, in the same process and with the same or other options, writes exactly the file that an undisturbed process would have written. "
     "Repeating a successful export, or asking for the metric between exports, likewise gives the same values every time.",
     ["fault_sequences", "histories", "configurations", "crash_points"],
     "all failure points (source line or file operation) and all sequences of failed and successful exports and metric queries, for Cartesian and cylindrical fields and all writer options",
     "Tests export each grid once; wrong state only shows on the export after a failure.",
     [ZB, GR], [("metric assembled from the grid's cached metric", "get_metric, Grid.metric, MapWriter._write_metric")],
     ["second grid file", "grid metric"])

prop("C11", "The grid file is a faithful record of the sessions that wrote it",
     "After any sequence of writer sessions (create, reopen to update, add grid, field, maps or extra variables, with naming and 2D options, with interrupted sessions in between) the file holds exactly the last value given for every variable: positions, maps, metric components of the grid and of every traced parallel slice, field strength, pressure and field attributes, under the documented names; variables not given again keep their values. "
     "2D output keeps the first z-plane of the metric only, never of maps. "
     "Each completed export gets a new identifier, unique even if the clock stands still or runs backwards.",
     ["histories", "configurations", "fault_sequences"],
     "all sequences of writer sessions, options, grids, fields and numbers of parallel slices; all clock behaviours",
     "Tests check that a file can be written, not its contents after histories of updates and interrupts.",
     [ZB], [("writer", "MapWriter, write_maps, update_metric_names, parallel_slice_field_name")],
     ["variables and attributes of the grid file"])

prop("C12", "No output depends on uninitialised memory",
     "Every number that zoidberg returns or writes is determined by its inputs: running the same computation with different contents of freshly allocated memory gives identical maps, metrics, grid-file variables, stencil coefficients, interpolation weights and traced positions, also when remote replies are incomplete or requests fail.",
     ["inputs", "configurations", "fault_sequences"],
     "all computations that build maps, grids, stencils, weights, traces and files, under all initial memory contents",
     "Fresh memory is usually zero in a test process, so reads of it go unnoticed and differ only in production.",
     [ZB, FT, DG, "zoidberg/weights.py", "zoidberg/diff.py", "zoidberg/rzline.py", PG], [("arrays are filled before use", "make_maps, follow_field_lines, doit, diff functions, weights")],
     ["all returned arrays", "grid file"])

prop("C13", "Concurrent callers sharing grids, fields and tracers do not disturb each other",
     "Threads that at the same time trace lines, build maps, query metrics, look up indices, write different grid files or evaluate fields on shared grid, field, tracer and configuration objects each get exactly the result they would get alone, for every interleaving. "
     "No call fails because of another call.",
     ["schedules", "histories"],
     "all thread interleavings at source-line granularity of two or three concurrent operations on shared objects",
     "No test uses threads, and real thread schedules rarely hit the windows.",
     [GR, ZB, FT, FI, PG], [("no shared mutable state besides the metric cache and service clients", "Grid.metric, get_metric, FieldTracerWeb.getConfig, field.tracer")],
     ["return values of each thread", "files"])

prop("C14", "Operations are repeatable, and failures in between leave no trace",
     "Any operation on grids, fields, tracers, maps and stencils gives the same answer no matter which operations ran before it, succeeded, or were interrupted half-way by an exception, a memory error or a user interrupt. "
     "Operations do not modify the arrays and objects they are given, and one field or grid object never acquires properties of another.",
     ["histories", "fault_sequences", "inputs"],
     "all sequences of operations over a pool of shared objects with an exception injected at any source line",
     "Each test uses fresh objects and undisturbed calls.",
     [FT, FI, ZB, GR, PG, DG], [("functions work on copies", "throughout"), ("per-object attributes", "MagneticField.attributes, GEQDSK")],
     ["return values", "input arrays after the call"])

prop("C15", "Broken field data never hangs a tracer or reaches a grid file silently",
     "If a field returns non-finite values or raises, from any evaluation on, in any region or only once, every tracing, map-making and export operation still ends after a bounded number of field evaluations, and an exception raised by the field reaches the caller. "
     "Non-finite numbers are never stored as variables of a grid file: the export raises, and the file does not pass for complete. "
     "Afterwards the same grid and tracer work normally with good data.",
     ["fault_sequences", "inputs"],
     "all evaluation indices, regions and kinds (NaN, infinity, exception) of bad field data in all operations",
     "Tests only use well-behaved analytic fields.",
     [FT, ZB, PG], [("bounded Newton iterations", "FieldTracerReversible, StructuredPoloidalGrid.findIndex"), ("finiteness check on write", "MapWriter.write_dict")],
     ["termination in evaluations", "exception", "grid file variables"])

prop("C16", "Progress output, verbosity and clocks never influence results",
     "Maps, stencils and grid files are the same with any progress-bar back end, verbosity setting and bar option, and for any behaviour of the system clock (jumps, standing still, running backwards). "
     "None of these can make an operation fail, and making maps or upscaling in quiet mode prints no progress.",
     ["configurations", "fault_sequences"],
     "all verbosity settings, progress options, presence of the optional progress package, and clock behaviours",
     "Tests run with one setting on a healthy clock and without the optional package.",
     [PR, ZB, DG], [("progress display separate from computation", "update_progress, Progress, make_maps, doit")],
     ["returned maps", "files", "standard output"])

prop("C17", "A whole grid build over flaky services and crashes ends in the right file",
     "Building a grid file from remote field and tracing services with the trace cache, through any sequence of service failures, hung requests, user interrupts, disk errors and process kills, each followed by simply running the same build again, ends in a file equal to that of an undisturbed build once faults stop. "
     "Work already cached is not requested from the service again after a restart.",
     ["fault_sequences", "crash_points", "histories", "schedules"],
     "all sequences of up to a few faulty process lives of the complete build, followed by a healthy one",
     "End-to-end behaviour needs services, a cache, files and crashes together.",
     [FT, FI, ZB, DG], [("retry, cache, atomic files, resumable stencil", "FieldTracerWeb, CachingFieldTracer, W7X_vacuum_on_demand, MapWriter")],
     ["final grid file", "requests received by the service"])

# ---- pure functions: listed, not claimed -------------------------------------------------
prop("C31", "Parallel-map operators conserve and number cells consistently",
     "Interpolation and integration weights built from parallel maps are non-negative where promised, sum to one per interior row, and refer only to existing cells, and the numbering of cells is a bijection.",
     ["inputs"], "all maps and grid sizes", "Tests sample a few maps.",
     ["zoidberg/weights.py"], [("weights", "weights.py")])
prop("C32", "Index lookup inverts coordinate lookup on every poloidal grid",
     "Looking up the index of the position of any index inside a poloidal grid returns that index within tolerance, and positions beyond the radial edges are marked as inner or outer boundary.",
     ["inputs"], "all grids and index positions", "Tests sample simple grids.",
     [PG], [("Newton iteration", "StructuredPoloidalGrid.findIndex")])
prop("C33", "Metric tensors are symmetric positive definite inverses of each other",
     "On every valid poloidal grid the covariant and contravariant metrics are inverse to each other and positive definite.",
     ["inputs"], "all valid grids", "Tests sample a few grids.",
     [PG, GR], [("metric", "PoloidalGrid.metric, Grid.metric")])
prop("C34", "Field models are self-consistent",
     "Field magnitude equals the norm of the components, the field direction equals the ratio of components, and analytic fields are divergence free, for all parameters and positions.",
     ["inputs"], "all field parameters and positions", "Tests sample positions.",
     [FI], [("field classes", "field.py")])
prop("C35", "Local tracing is accurate, order-independent and reversible",
     "Integrated positions converge to the exact field line, do not depend on how many points are traced together, and tracing back returns to the start within tolerance.",
     ["inputs"], "all fields, start points and plane lists", "Tests sample a few lines.",
     [FT], [("ODE integration", "FieldTracer, FieldTracerReversible")])
prop("C36", "Boundary shapes classify points correctly",
     "Points are reported outside a boundary exactly if they lie outside its shape.",
     ["inputs"], "all shapes and points", "Tests sample points.",
     ["zoidberg/boundary.py"], [("outside tests", "boundary.py")])
prop("C37", "Grid generators and lines produce valid geometry",
     "Generated poloidal grids follow their inner and outer boundaries without overlapping cells, and equally spaced lines are equally spaced.",
     ["inputs"], "all boundary shapes and resolutions", "Tests sample shapes.",
     [PG, "zoidberg/rzline.py"], [("grid_elliptic, grid_annulus, RZline", "poloidal_grid.py, rzline.py")])
prop("C38", "Finite differences and smoothing have their stated order and invariants",
     "Difference operators reach their order of accuracy and smoothing keeps lines closed and ordered.",
     ["inputs"], "all smooth inputs", "Tests sample functions.",
     ["zoidberg/diff.py", "zoidberg/smooth.py"], [("stencils", "diff.py, smooth.py")])
prop("C39", "Periodic and bounded toroidal indexing is consistent",
     "Neighbouring planes returned for any index are ordered in the toroidal coordinate and wrap by the domain length when periodic.",
     ["inputs"], "all grids and indices", "Tests sample indices.",
     [GR], [("getPoloidalGrid", "grid.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
