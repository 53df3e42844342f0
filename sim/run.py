"""The driver: distributes seeds over workers, confirms, minimises and reports violations, writes evidence."""
import argparse
import importlib.util
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get("ZOIDSIM_PYTHON", "/opt/venv/bin/python")


class HarnessError(Exception):
    pass


def build_shim(root):
    so = os.path.join(root, "simio.so")
    subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-o", so, os.path.join(VERIF, "sim", "simio.c"), "-ldl"],
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return so


class Worker:
    """The driver's end of one worker process"""

    def __init__(self, results, pool):
        self.pool = pool
        self.r1, self.w1 = os.pipe()
        self.r2, self.w2 = os.pipe()
        self.inp = os.fdopen(self.w1, "w")
        self.out = os.fdopen(self.r2, "r")
        self.results = results

    def start(self):
        os.close(self.r1), os.close(self.w2)
        threading.Thread(target=self._reader, daemon=True).start()

    def _reader(self):
        for line in self.out:
            self.results.put((self, json.loads(line)))
        self.results.put((self, dict(kind="gone")))

    def send(self, job):
        self.inp.write(json.dumps(job) + "\n")
        self.inp.flush()

    def stop(self):
        try:
            self.inp.close()
        except OSError:
            pass


class Pool:
    """Synchronous façade over the workers"""

    def __init__(self, prop, n):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else None
        self.root = tempfile.mkdtemp(prefix="zoidsim-", dir=base)
        try:
            self.so = build_shim(self.root)
        except Exception as e:
            shutil.rmtree(self.root, ignore_errors=True)
            raise HarnessError(f"cannot build the disk shim: {e}")
        self.results = queue.Queue()
        self.workers = [Worker(self.results, self) for _ in range(n)]
        env = dict(os.environ)
        env.update(LD_PRELOAD=self.so, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE",
                   PYTHONPATH=VERIF)
        env.setdefault("PYTHONHASHSEED", "0")
        self.log = open(os.path.join(self.root, "worker.err"), "w+")
        # one process prepares, then forks into the workers
        self.p = subprocess.Popen([PYTHON, "-m", "sim.worker", prop, self.root] + [f"{w.r1},{w.w2}" for w in self.workers],
                                  pass_fds=[fd for w in self.workers for fd in (w.r1, w.w2)], env=env, cwd=VERIF,
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.log)
        for w in self.workers:
            w.start()
        self.info = None
        ready = 0
        while ready < n:
            try:
                w, m = self.results.get(timeout=400)
            except queue.Empty:
                m = dict(msg="workers do not start", kind="fatal")
            if m["kind"] == "ready":
                ready += 1
                self.info = m
            else:
                self.log.flush()
                self.log.seek(0)
                err = m.get("msg") or self.log.read()[-3000:]
                self.close()
                raise HarnessError("worker failed to start:\n" + err)

    def run(self, jobs, on_result, deadline=None, lookahead=1):
        """Feed jobs (iterator) to the workers; on_result(result) may return True to stop"""
        jobs = iter(jobs)
        busy = 0
        stopped = False

        def feed(w):
            nonlocal busy, stopped
            if stopped or (deadline is not None and time.monotonic() > deadline):
                stopped = True
                return
            try:
                w.send(next(jobs))
                busy += 1
            except StopIteration:
                pass

        for w in self.workers:
            feed(w)
        while busy:
            w, m = self.results.get(timeout=1200)
            if m["kind"] == "gone":
                raise HarnessError("a worker died")
            busy -= 1
            if on_result(m):
                stopped = True
            feed(w)
        return stopped

    def close(self):
        for w in self.workers:
            w.stop()
        try:
            self.p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.log.close()
        shutil.rmtree(self.root, ignore_errors=True)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def minimise(pool, prop, plan, cls, known, seconds=60, limit=400):
    """Greedy delta debugging on the plan: keep any smaller plan with the same class of violation"""
    from props import shrink as sh

    end = time.monotonic() + seconds
    used = 0
    best = plan
    last = None
    progress = True
    while progress and used < limit and time.monotonic() < end:
        progress = False
        cands = []
        seen = {json.dumps(best, sort_keys=True)}
        for c in sh.candidates(prop, best):
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cands.append(c)
            if len(cands) >= 200:
                break
        found = {}

        def on(m):
            nonlocal used
            used += 1
            if m["status"] == "violation" and m["cls"] == cls:
                found[m["id"]] = m
                return True
            return used >= limit

        pool.run((dict(id=i, plan=c, known=known, verbose=True) for i, c in enumerate(cands)), on, deadline=end)
        if found:
            i = min(found)
            best, last, progress = found[i]["plan"], found[i], True
    return best, last, used


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?", default="")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--digests", help="write the digest of every run to this file (determinism check)")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--keep-going", action="store_true", help="report all violation classes, do not minimise (development)")
    ap.add_argument("--setup", action="store_true", help="only see that the shim compiles")
    a = ap.parse_args(argv)
    if a.setup:
        root = tempfile.mkdtemp()
        try:
            build_shim(root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        return 0
    a.property = a.property.upper()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    try:
        return replay(a) if a.replay else check(a)
    except HarnessError as e:
        print(f"HARNESS-ERROR {e}", file=sys.stderr)
        return 2


def replay(a):
    rec = json.load(open(a.replay))
    known = [f["id"] for f in load_known() if f["property"] == a.property and f.get("status") == "known"]
    pool = Pool(a.property, 1)
    try:
        out = []
        pool.run([dict(id=0, plan=rec["plan"], known=known, verbose=True)], lambda m: out.append(m))
    finally:
        pool.close()
    m = out[0]
    print(json.dumps(dict(status=m["status"], cls=m["cls"], msg=m["msg"], digest=m["digest"]), indent=1))
    for e in m["events"]:
        print("  ", e)
    if m["status"] == "violation":
        same = m["cls"] == rec["cls"] and m["digest"] == rec["digest"]
        print(f"reproduced: class {'same' if m['cls'] == rec['cls'] else 'different'}, event log {'identical' if m['digest'] == rec['digest'] else 'different'}")
        print(f"VIOLATION property={a.property} replay={a.replay}")
        return 1
    return 0


def check(a):
    t0 = time.monotonic()
    prop = a.property
    kf = [f for f in load_known() if f["property"] == prop and f.get("status") == "known"]
    known = [f["id"] for f in kf]
    print(f"simulation of {prop}: VERIF_SEED={a.seed} tier={a.tier}", flush=True)
    pool = Pool(prop, a.workers)
    try:
        return _check(a, t0, prop, kf, known, pool)
    finally:
        pool.close()


def _check(a, t0, prop, kf, known, pool):
    nrun, cap = pool.info[a.tier]
    if a.runs is not None:
        nrun = a.runs
    if a.seconds is not None:
        cap = a.seconds
    deadline = max(t0 + cap, time.monotonic() + 15)
    ndir = pool.info["directed"]
    faults, probes = Counter(), Counter()
    digests, nontrivial, states = {}, set(), set()
    findings = {}
    samples = []
    bad, errors = [], []
    simtime = 0.0
    done = 0

    def jobs():
        for i in range(ndir):
            yield dict(id=f"d{i}", directed=i, known=known)
        for i in range(nrun):
            yield dict(id=i, index=i, seed=a.seed, tier=a.tier, known=known)

    def on(m):
        nonlocal simtime, done
        done += 1
        faults.update(m["faults"])
        probes.update(m["probes"])
        simtime += m["simtime"]
        findings.update(m["findings"])
        states.update(m["states"])
        digests[str(m["id"])] = m["digest"]
        if m["nontrivial"]:
            nontrivial.add(m["digest"])
            if len(samples) < 4:
                samples.append(dict(run=m["id"], plan=_short(m["plan"]), faults=m["faults"], events=m["events"][:8]))
        if m["status"] == "error":
            errors.append(m)
            return len(errors) > 5
        if m["status"] == "violation":
            bad.append(m)
            return not a.keep_going
        return False

    pool.run(jobs(), on, deadline)
    explored = time.monotonic() - t0
    if a.digests:
        json.dump(digests, open(a.digests, "w"), indent=0, sort_keys=True)
    if a.keep_going:
        for m in bad[:1] if bad and bad[0]["cls"] == "undisturbed-operation-fails" else bad[:12]:
            print(m["id"], m["cls"], m["msg"][:400])
            print("   plan", json.dumps(m["plan"])[:600])
        print(Counter(m["cls"] for m in bad))
    # determinism: execute a sample again, on whatever worker is free
    sample_ids = [f"d{i}" for i in range(min(ndir, 3))] + sorted(m for m in (int(k) for k in digests if not k.startswith('d')))[::max(1, done // 16)]
    again, differ = 0, []

    def on2(m):
        nonlocal again
        again += 1
        if digests.get(str(m["id"])) != m["digest"]:
            differ.append(str(m["id"]))

    if not bad:
        pool.run((dict(id=i, directed=int(i[1:]), known=known) if isinstance(i, str) else dict(id=i, index=i, seed=a.seed, tier=a.tier, known=known)
                  for i in sample_ids if str(i) in digests), on2, deadline=time.monotonic() + 60)
    violations = []
    unconfirmed = []
    bad.sort(key=lambda m: (isinstance(m["id"], int), str(m["id"]).rjust(9)))
    for m in bad[:3]:
        # a violation counts if executing the same plan again violates again
        rep = []
        for _ in range(3):
            out = []
            pool.run([dict(id=0, plan=m["plan"], known=known, verbose=True)], lambda q: out.append(q))
            if out and out[0]["status"] == "violation" and out[0]["cls"] == m["cls"]:
                rep = out
                break
        if not rep:
            unconfirmed.append(dict(run=m["id"], cls=m["cls"], msg=m["msg"][:500]))
            continue
        plan, last, used = m["plan"], rep[0], 0
        if not a.keep_going:
            try:
                plan, small, used = minimise(pool, prop, m["plan"], m["cls"], known)
                last = small or last
            except HarnessError:
                raise
            except Exception as e:
                print("minimisation failed:", e)
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", "replay", f"{prop}-seed{a.seed}-run{m['id']}.json")
        json.dump(dict(property=prop, seed=a.seed, run=m["id"], cls=last["cls"], msg=last["msg"], digest=last["digest"], plan=plan,
                       events=last["events"], minimisation_runs=used, original_plan=m["plan"]), open(path, "w"), indent=1)
        violations.append(path)
        print(f"run {m['id']} of seed {a.seed}: {last['cls']}: {last['msg'][:1500]}")
        print("minimised plan: " + json.dumps(plan)[:3000])
        break
    for f in kf:
        if f["id"] in findings:
            print(f"KNOWN-FINDING: property={prop} {f['id']} {f['what']}")
    wall = time.monotonic() - t0
    from props import meta

    md = meta.META[prop]
    ev = dict(
        property=prop, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=done, distinct_nontrivial=len(nontrivial), rule=md["rule"],
            samples=samples or [dict(run=k) for k in list(digests)[:2]],
            simulated_runs_per_hour=round(done / max(explored, 1e-3) * 3600), seeds_per_hour=round(done / max(explored, 1e-3) * 3600),
            first_seed=a.seed, simulated_seconds=round(simtime, 3), faults_injected=dict(sorted(faults.items())),
            probes=dict(sorted(probes.items())),
            distinct_executions=len(set(digests.values())), distinct_states=len(states), state_measure=md["states"],
            real_components=md["real"], stubbed_components=md["stub"],
            determinism_rechecked=again, determinism_differences=len(differ), workers=a.workers,
            known_findings_met=sorted(findings), unconfirmed=unconfirmed, harness_errors=len(errors),
        ),
        assumptions=md["assumptions"], wall_s=round(wall, 3), violations=len(violations),
    )
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {done} runs in {explored:.1f} s, {len(nontrivial)} distinct non-trivial, {simtime:.0f} simulated seconds, faults {dict(faults)}, "
          f"determinism {again - len(differ)}/{again}")
    if differ:
        print("note: not reproduced exactly:", differ[:10])
    if unconfirmed:
        print("note: unconfirmed:", json.dumps(unconfirmed)[:2000])
    if violations:
        print(f"VIOLATION property={prop} replay={violations[0]}")
        return 1
    if errors:
        raise HarnessError(f"{len(errors)} runs failed in the harness: {errors[0]['msg'][:1500]}")
    return 0


def _short(x, n=900):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."
