"""A worker: a fresh interpreter with the seams installed; forks one child per simulated run."""
import importlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import time
import traceback

CPU_LIMIT = int(os.environ.get("ZOIDSIM_CPU", "60"))
WALL_LIMIT = int(os.environ.get("ZOIDSIM_WALL", "200"))


PREPARE_LIMIT = 240


def run_plan(mod, plan, scratch, known):
    """In the forked child: execute and classify"""
    from . import boot, core, world

    world.ambient = world.Ambient()
    ctx = core.Ctx(scratch, known)
    res = dict(status="ok", cls=None, msg=None)
    try:
        mod.run(plan, ctx)
    except core.Violation as v:
        res.update(status="violation", cls=v.cls, msg=v.msg)
    except BaseException as e:
        tb = traceback.format_exc()
        inside = boot.PKG in tb
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not inside:
            raise
        res.update(status="violation", cls="unexpected-exception" if inside else "unexpected-behaviour",
                   msg=f"{type(e).__name__}: {e}\n{tb[-2500:]}")
    res.update(digest=ctx.digest(), events=ctx.events, faults=dict(ctx.faults), probes=dict(ctx.probes),
               simtime=float(ctx.simtime), findings=ctx.findings, states=sorted(ctx.states),
               nontrivial=bool(ctx.nontrivial or sum(ctx.faults.values()) > 0))
    return res


def execute(mod, plan, root, known, ident):
    scratch = os.path.join(root, f"r{os.getpid()}-{ident}")
    os.makedirs(scratch)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            os.chdir(scratch)
            out = pickle.dumps(run_plan(mod, plan, scratch, known))
            while out:
                out = out[os.write(w, out):]
        except BaseException:
            code = 90
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    stuck = False
    end = time.monotonic() + WALL_LIMIT
    import select

    while True:
        left = end - time.monotonic()
        if left <= 0:
            stuck = True
            os.killpg(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    try:
        os.killpg(pid, signal.SIGKILL)  # stray grandchildren
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if data and not stuck and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
        return pickle.loads(data)
    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
    base = dict(digest="", events=[], faults={}, probes={}, simtime=0.0, findings={}, states=[], nontrivial=True)
    if sig == signal.SIGXCPU or (sig == signal.SIGKILL and not stuck):
        return dict(base, status="violation", cls="no-progress", msg=f"the run used more than {CPU_LIMIT} s of processor time and was stopped")
    if stuck:
        return dict(base, status="violation", cls="no-progress", msg=f"the run did not end within {WALL_LIMIT} s")
    if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS):
        return dict(base, status="violation", cls="process-died", msg=f"signal {sig}")
    return dict(base, status="error", cls="harness", msg=f"run ended with status {status}")


def main():
    prop, root = sys.argv[1], sys.argv[2]
    fds = [tuple(int(q) for q in a.split(",")) for a in sys.argv[3:]]
    # zoidberg prints; keep that away from the driver
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    broken = None
    try:
        from . import boot  # noqa
        from . import core
        mod = importlib.import_module(f"props.{prop.lower()}")
        if hasattr(mod, "prepare"):
            def late(*_):
                raise TimeoutError("undisturbed operations do not end")

            try:
                signal.signal(signal.SIGALRM, late)
                signal.alarm(PREPARE_LIMIT)
                mod.prepare()
                signal.alarm(0)
            except Exception:
                signal.alarm(0)
                # what every simulation starts from, without any fault, already fails
                broken = traceback.format_exc()
    except BaseException:
        for _, o in fds:
            os.write(o, (json.dumps(dict(kind="fatal", msg=traceback.format_exc())) + "\n").encode())
        return
    sys.stderr.flush()
    children = []
    for n, (i, o) in enumerate(fds):
        pid = os.fork()
        if pid == 0:
            for m, q in enumerate(fds):
                if m != n:
                    os.close(q[0]), os.close(q[1])
            code = 1
            try:
                serve(prop, root, mod, core, broken, i, o, n)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        children.append(pid)
    for i, o in fds:
        os.close(i), os.close(o)
    for pid in children:
        os.waitpid(pid, 0)


def serve(prop, root, mod, core, broken, infd, outfd, ident):
    inp, out = os.fdopen(infd, "r"), os.fdopen(outfd, "w")
    directed = mod.directed() if hasattr(mod, "directed") and not broken else []
    if broken:
        directed = [dict(undisturbed=True)]
    out.write(json.dumps(dict(kind="ready", directed=len(directed), quick=mod.QUICK, thorough=mod.THOROUGH)) + "\n")
    out.flush()
    n = 0
    for line in inp:
        job = json.loads(line)
        n += 1
        if "plan" in job:
            plan = job["plan"]
        elif "directed" in job or broken:
            plan = directed[job.get("directed", 0)]
        else:
            plan = core.jsonable(mod.gen(core.rng_for(prop, job["seed"], job["index"]), job["tier"]))
        if broken:
            msg = "undisturbed operation fails: " + broken.strip().splitlines()[-1] + " ... " + broken[-1200:]
            res = dict(status="violation", cls="undisturbed-operation-fails", msg=msg, digest="", events=[], faults={}, probes={}, simtime=0.0, findings={}, states=[], nontrivial=True)
        else:
            try:
                res = execute(mod, plan, root, job.get("known", ()), f"{ident}-{n}")
            except BaseException:
                res = dict(status="error", cls="harness", msg=traceback.format_exc(), digest="", events=[], faults={}, probes={}, simtime=0.0, findings={}, states=[], nontrivial=False)
        res["kind"], res["id"], res["plan"] = "result", job["id"], plan
        if res["status"] == "ok" and not job.get("verbose"):
            res["events"] = res["events"][:12]
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
