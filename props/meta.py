"""What the checks say about themselves in the evidence and in MANIFEST.json"""

ALL = "all of zoidberg from /repo's working tree, numpy, scipy, shapely, boututils"
FILES = "netCDF4 / HDF5 / h5netcdf / xarray and the C library above the write/open/rename/... system calls"
SERVICE = "IPP web services (fieldline tracer, EXTENDER/VMEC), the osa and requests client packages"
POOL = "multiprocessing pool: discrete-event workers with simulated time, seeded latencies and completion order"
CLOCK = "clock and sleep: simulated"
DISK = "system-call layer of the disk: LD_PRELOAD shim that counts, journals and fails operations in /dev/shm scratch files"
TRACED = "seeded choice of the zoidberg source line at which an exception arrives, or a thread loses the processor (sys.settrace)"

COMMON = [
    "numpy, scipy, HDF5 and the Python interpreter behave as documented; only zoidberg's use of them is explored",
    "explored: the seeded runs counted here, not all runs",
]


def _m(rule, states, real, stub, assumptions=(), note=""):
    return dict(rule=rule, states=states, real=real, stub=stub, assumptions=list(assumptions) + COMMON, note=note)


META = {
    "C01": _m(
        "one case = a remote tracer (configuration, chunk size, retry budget, timeout, orientation) and 1-4 calls with random start points, shapes, planes, latencies and a fault sequence "
        "(error, hang, short reply, long reply, connection loss); non-trivial: at least one request reached the service",
        "(shape, chunks, planes, faults hit, outcome) of each call",
        [ALL, "FieldTracerWeb end to end"], [SERVICE, POOL, CLOCK],
        ["the service answers each line independently and deterministically; the stub's answer is a one-to-one function of start point, plane, configuration, direction and step",
         "the worker pool runs each task exactly once and in any order"],
        "exact comparison with the stub's own table of field lines"),
    "C02": _m(
        "as C01, with retry budgets 0-6 and timeouts per call / tracer / default, and services that are down when the tracer is created; non-trivial: at least one request reached the service",
        "(retry, faults hit, outcome, simulated duration class)",
        [ALL, "FieldTracerWeb end to end"], [SERVICE, POOL, CLOCK],
        ["a request that hangs is noticed only by the timeout of zoidberg", "the serial path (one chunk) has neither retry nor timeout by design and is only required to report the failure"],
        "budget and waiting time accounted over the recorded history of submissions and waits"),
    "C03": _m(
        "one case = histories of 2-6 calls on several tracers and fields (web, fusionsc, W7-X on demand) that share configuration objects, with failures, retries and, in a third of the cases, thread interleavings; non-trivial: at least two requests reached a service",
        "(kind of request, direction, accuracy, faults, interleaving)",
        [ALL, "FieldTracerWeb, FusionSCTracer, FusionSCField, W7X_vacuum_on_demand and their request construction"], [SERVICE, "fusionsc package", POOL, CLOCK, TRACED],
        ["the request record of the stub has the fields that the service documents"],
        "every recorded request is compared with the request derived from the caller's arguments"),
    "C04": _m(
        "one case = 3-12 questions (often nearly alike: permuted, rounded, concatenating to the same digits, other types) to caching tracers over process lives, with failing traces in between; non-trivial: a question was answered from the cache",
        "(questions asked, answered from cache, lives)",
        [ALL, FILES, "CachingFieldTracer end to end with local tracers"], [CLOCK],
        ["one tracer per cache name: the cache name stands for field and tracer"],
        "reference memo table: fresh trace of the wrapped tracer"),
    "C05": _m(
        "one case = 1-4 process lives of 1-4 questions on one cache, each with a fault at file operation k (kill, power loss, torn / short write, ENOSPC, EIO, EINTR), or two processes interleaved operation by operation; non-trivial: a fault fired or two processes overlapped",
        "(operation at which the fault fired, fault, what the next life found)",
        [ALL, FILES, "CachingFieldTracer"], [DISK, "kernel page cache: power loss keeps synced data and a seeded prefix-closed subset of later operations"],
        ["rename is atomic, metadata operations of one directory are not reordered, synced data is durable (journal of the shim)"],
        "every answer equals the fresh trace; after faults stop every question is answered"),
    "C06": _m(
        "one case = evaluations of W7-X vacuum / plasma / on-demand fields with point sets of any shape and a fault sequence per request (error, time-out, connection loss, short reply, interrupt); non-trivial: a request reached the service",
        "(field class, shape, faults, outcome)",
        [ALL, "W7X_vacuum, W7X_VMEC, W7X_vacuum_on_demand request and reply code"], [SERVICE, CLOCK, TRACED],
        ["a timed-out request raises the client library's time-out error"],
        "the field of the stub at the caller's points, rotated"),
    "C07": _m(
        "one case = 1-4 process lives that load or compute field files of random resolution, range and configuration (old-format files included) with a fault at file operation k; non-trivial: a file was written or loaded",
        "(life outcome, fault, file operation, what was found)",
        [ALL, FILES, "W7X_vacuum and W7X_VMEC field files"], [SERVICE, DISK, CLOCK],
        ["as C05 for the disk"],
        "recomputation in a directory without files"),
    "C08": _m(
        "one case = up to 4 sessions of stencil generation on one file, each interrupted at a source line (exception, interrupt, memory error), a file operation (kill, torn, EIO, ENOSPC) or not; non-trivial: a session was interrupted",
        "(planes finished, kind and place of interruption, outcome)",
        [ALL, FILES, "MapWriter and the stencil code"], [DISK, TRACED],
        ["a crash of the netCDF library after a failed write counts as a kill"],
        "coefficients plane by plane, other contents as before"),
    "C09": _m(
        "one case = 1-3 exports of random models and options, each hit by a fault at a source line or file operation, optionally over an older file; non-trivial: the export ran",
        "(options, fault, outcome, variables present)",
        [ALL, FILES, "MapWriter, write_maps"], [DISK, TRACED],
        ["as C08"],
        "undisturbed export of the same model"),
    "C10": _m(
        "one case = a sequence of exports, metric queries and failing exports on the same objects in one process; non-trivial: at least one export",
        "(options, faults, order)",
        [ALL, FILES, "MapWriter, write_maps, get_metric, Grid.metric"], [DISK, TRACED],
        ["as C08; interrupts inside opening and closing a file are left to C09"],
        "file of a fresh process"),
    "C11": _m(
        "one case = 1-6 writer sessions (create / update, naming, 2D, values given by the caller, interrupts) with a simulated clock; non-trivial: at least one completed session",
        "(operations of a session, options, interruption)",
        [ALL, FILES, "MapWriter"], [CLOCK, TRACED],
        ["as C08"],
        "dictionary model of the file"),
    "C12": _m(
        "one case = operations of the catalogue (220 operations over all modules), remote calls with faults, or interrupted file sessions, each run twice with different contents of fresh memory; non-trivial: always",
        "(operation, kind of memory contents, outcome)",
        [ALL, FILES], ["numpy.empty / empty_like called by zoidberg: filled from a seeded stream", "C allocator: contents set by mallopt(M_PERTURB) and by freed arrays", SERVICE, POOL],
        [],
        "bitwise comparison of the two runs and of the plain run"),
    "C13": _m(
        "one case = 2-3 threads with 1-3 catalogue operations each, pre-empted at seeded source lines; non-trivial: at least one switch between threads inside zoidberg",
        "(operations, places of the switches)",
        [ALL, FILES], ["thread scheduler: baton passed at source lines of zoidberg", SERVICE],
        ["pre-emption between source lines of zoidberg, not inside one"],
        "bitwise comparison with each operation alone"),
    "C14": _m(
        "one case = 2-8 catalogue operations, some interrupted at a seeded source line by an exception, memory error or user interrupt; non-trivial: at least two operations",
        "(operation after operation, interruption)",
        [ALL, FILES], [TRACED, SERVICE],
        [],
        "bitwise comparison with each operation alone; arguments and shared objects compared before and after"),
    "C15": _m(
        "one case = a field that goes wrong (nan, +-inf, zero, exception) from evaluation k on, once, for some evaluations or in a region, in all or some components, under a tracing, map-making, metric or export operation, followed by the same operation with the field in order; non-trivial: the fault was met",
        "(operation, fault, place, outcome)",
        [ALL, FILES], ["field models: wrapped by a counting, fault-injecting field"],
        ["a bounded number of evaluations: 1000000 plus 1000 times the undisturbed number"],
        "undisturbed operation"),
    "C16": _m(
        "one case = map making, stencil generation, export, upscaling with a progress back end (built in, stub of tqdm, none), bar options, quiet setting and a seeded misbehaving clock; non-trivial: an operation ran",
        "(operation, back end, options, clock)",
        [ALL, FILES], ["tqdm: stub that records", CLOCK, "console: recorded"],
        [],
        "bitwise comparison with the quiet run"),
    "C17": _m(
        "one case = a build script (W7-X field on demand, cached remote tracer, maps, grid file, stencil) run over up to 6 process lives with service faults, kills, interrupts and disk faults, then undisturbed; non-trivial: a life was disturbed",
        "(stage reached by each life, fault, outcome)",
        [ALL, FILES], [SERVICE, POOL, CLOCK, DISK, TRACED],
        ["as C01, C05, C08"],
        "file and request log of an undisturbed build"),
}
