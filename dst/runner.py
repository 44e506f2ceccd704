"""Runs plans in forked children, searches seeds, minimises failures, writes evidence and replays."""

import collections
import gc
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("DST_REPO_SRC", "/repo/src")
RUN_WALL = 90  # seconds of wall clock before a run is given up
MAX_TIMEOUTS = 4  # runs given up before the search stops and looks at them
RECHECKS = 2  # of them tried once more, alone and with more time
SEARCH_WALL = {"quick": 560, "thorough": 6 * 3600}  # seconds; no new run is started after that
JOBS = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    """The property does not hold; `klass` says in which way."""

    def __init__(self, klass, msg):
        super().__init__(f"{klass}: {msg}")
        self.klass, self.msg = klass, msg


def reexec(hashseed):
    """String hashing is a source of nondeterminism too: pin it."""
    want = str(hashseed % 4294967296)
    if os.environ.get("PYTHONHASHSEED") != want:
        os.environ["PYTHONHASHSEED"] = want
        args = [sys.executable, "-X", "frozen_modules=off", *sys.argv]
        if sys.argv[0].endswith(".py") and "__main__" in sys.modules:
            spec = getattr(sys.modules["__main__"], "__spec__", None)
            if spec is not None:
                name = spec.name.removesuffix(".__main__")
                args = [sys.executable, "-m", name, *sys.argv[1:]]
        os.execv(sys.executable, args)


def load_world():
    sys.path.insert(0, REPO_SRC)
    sys.dont_write_bytecode = True
    from . import world

    world.install()
    import sleplet

    if not os.path.realpath(sleplet.__file__).startswith(os.path.realpath(REPO_SRC)):
        raise SystemExit(f"sleplet comes from {sleplet.__file__}, not from {REPO_SRC}")
    return world


def jsonable(x):
    return json.loads(json.dumps(x, sort_keys=True, default=str))


class Runner:
    def __init__(self, prop, seed=1, tier="quick"):
        self.world_mod = load_world()
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.base = self.world_mod.fresh_root(f"-{prop.ID}")
        self.n = 0
        warm = getattr(prop, "warm", None)
        if warm:
            warm(self)
        gc.collect()
        gc.freeze()

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    # -- one run, in this OS process -----------------------------------------------------
    def run_here(self, plan, trace=None, seed=0, root=None):
        from . import engine

        w_mod = self.world_mod
        dec = engine.Decisions(seed=seed, trace=trace, sched=plan.get("sched"), fault=plan.get("fault"))
        res = {"status": "ok", "klass": None, "msg": ""}
        t0 = time.perf_counter()
        os.mkdir(root)
        world = None
        info = {}
        try:
            world = w_mod.World(plan, dec, os.path.join(root, "w"))
            world.scratch = root
            world.runner = self
            try:
                info = self.prop.run(world, plan) or {}
            except Violation as v:
                res.update(status="violation", klass=v.klass, msg=v.msg)
            if res["status"] == "ok" and world.sim.aborting:
                res.update(status="violation", klass="no-progress", msg=world.sim.aborting)
        except engine.HarnessError as e:
            res.update(status="harness", msg="".join(traceback.format_exception(e))[-3000:])
        except Exception as e:  # noqa: BLE001
            res.update(status="harness", msg="".join(traceback.format_exception(e))[-3000:])
        finally:
            if world is not None:
                sim = world.sim
                res.update(
                    used=dec.used, fired=dec.fired, opportunities=dec.opportunity, virtual=sim.now,
                    switches=sim.switch_count, points=sim.points, tasks=len(sim.tasks), processes=world.nproc,
                    sig=sim.sig.hexdigest(), log_hash=sim.log_hash.hexdigest(), probes=sim.probes,
                    fs=dict(world.fs.stats), requests=len(world.net.requests), log=sim.log[-150:],
                )
                world.close()
        res["info"] = info
        res["wall"] = time.perf_counter() - t0
        return res

    # -- one run, in a child ----------------------------------------------------------------
    def spawn(self, plan, trace, seed):
        self.n += 1
        root = os.path.join(self.base, f"r{self.n}")
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                dn = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(dn, fd)
                res = self.run_here(plan, trace, seed, root)
                data = pickle.dumps(res)
                mv = memoryview(data)
                while mv:
                    k = os.write(w, mv)
                    mv = mv[k:]
            except BaseException:  # noqa: BLE001
                code = 3
                try:
                    os.write(w, pickle.dumps({"status": "harness", "msg": traceback.format_exc()[-3000:]}))
                except BaseException:  # noqa: BLE001
                    pass
            os._exit(code)
        os.close(w)
        return {"pid": pid, "fd": r, "buf": [], "t0": time.monotonic(), "root": root}

    def reap(self, c, killed=False):
        os.close(c["fd"])
        os.waitpid(c["pid"], 0)
        shutil.rmtree(c["root"], ignore_errors=True)
        if killed:
            return {"status": "timeout", "klass": "timeout", "msg": f"no end after {RUN_WALL} s of wall clock"}
        try:
            return pickle.loads(b"".join(c["buf"]))
        except Exception:  # noqa: BLE001
            return {"status": "harness", "msg": "child died without a result"}

    def many(self, jobs, on_result, stop=lambda i: False, wall=RUN_WALL):
        """jobs: iterable of (key, plan, trace, seed)."""
        it = iter(jobs)
        live = {}
        done = False
        while True:
            while not done and len(live) < JOBS:
                try:
                    key, plan, trace, seed = next(it)
                except StopIteration:
                    done = True
                    break
                if stop(key):
                    continue
                c = self.spawn(plan, trace, seed)
                c["key"], c["plan"] = key, plan
                live[c["fd"]] = c
            if not live:
                return
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for fd in ready:
                c = live[fd]
                d = os.read(fd, 1 << 20)
                if d:
                    c["buf"].append(d)
                else:
                    del live[fd]
                    on_result(c["key"], c["plan"], self.reap(c))
            now = time.monotonic()
            for fd, c in list(live.items()):
                if now - c["t0"] > wall:
                    os.kill(c["pid"], signal.SIGKILL)
                    del live[fd]
                    on_result(c["key"], c["plan"], self.reap(c, killed=True))

    def one(self, plan, trace=None, seed=0, wall=RUN_WALL):
        out = []
        self.many([(0, plan, trace, seed)], lambda k, p, r: out.append(r), wall=wall)
        return out[0]

    # -- minimisation -------------------------------------------------------------------------
    def minimise(self, plan, res, budget_s=100, budget_n=600):
        """Shrink plan and trace while the same class of violation remains."""
        klass = res["klass"]
        t_end = time.monotonic() + budget_s
        count = [0]

        def batch(cands):
            """First candidate (in order) that still fails, with its result."""
            cands = cands[: max(0, budget_n - count[0])]
            count[0] += len(cands)
            got = {}
            best = [len(cands)]

            def on(k, p, r):
                got[k] = r
                if r["status"] == "violation" and r["klass"] == klass and k < best[0]:
                    best[0] = k

            self.many([(i, p, t, 0) for i, (p, t) in enumerate(cands)], on, stop=lambda i: i > best[0])
            return (best[0], got[best[0]]) if best[0] < len(cands) else None

        def time_left():
            return time.monotonic() < t_end and count[0] < budget_n

        trace = dict(res["used"])
        first = batch([(plan, trace)])
        if first is None:
            return plan, trace, None, count[0]
        cur = first[1]
        shrink = getattr(self.prop, "shrink", default_shrink)
        changed = True
        while changed and time_left():
            changed = False
            # plan
            while time_left():
                cands = [(p, trace) for p in shrink(plan)][:64]
                hit = batch(cands) if cands else None
                if not hit:
                    break
                plan = cands[hit[0]][0]
                cur = hit[1]
                trace = dict(cur["used"])
                changed = True
            # trace entries
            keys = list(trace)
            size = max(1, len(keys) // 2)
            while keys and time_left():
                chunks = [keys[i:i + size] for i in range(0, len(keys), size)]
                cands = [(plan, {k: v for k, v in trace.items() if k not in set(ch)}) for ch in chunks]
                hit = batch(cands)
                if hit:
                    cur = hit[1]
                    trace = dict(cur["used"])
                    keys = list(trace)
                    changed = True
                    size = min(size, max(1, len(keys) // 2))
                elif size == 1:
                    break
                else:
                    size = max(1, size // 2)
        return plan, trace, cur, count[0]


def default_shrink(plan):
    """Drop single operations, then simplify numbers, of a plan with an `ops` list."""
    import copy

    ops = plan.get("ops") or []
    for i in range(len(ops)):
        if len(ops) > 1:
            p = copy.deepcopy(plan)
            del p["ops"][i]
            yield p
    for i, o in enumerate(ops):
        if isinstance(o, dict):
            for k, v in (("ncpu", 2), ("L", 3), ("L", 2)):
                if isinstance(o.get(k), int) and o[k] > v:
                    p = copy.deepcopy(plan)
                    p["ops"][i][k] = v
                    yield p
            if isinstance(o.get("objs"), list) and len(o["objs"]) > 1:
                for j in range(len(o["objs"])):
                    p = copy.deepcopy(plan)
                    del p["ops"][i]["objs"][j]
                    yield p
    if len(plan.get("procs") or []) > 1:
        for i in range(len(plan["procs"])):
            p = copy.deepcopy(plan)
            del p["procs"][i]
            yield p


def run_seed(seed, prop_id, i):
    return int.from_bytes(hashlib.blake2b(f"{seed}:{prop_id}:{i}".encode(), digest_size=7).digest(), "big")


def make_plan(prop, seed, i, tier):
    rng = random.Random(run_seed(seed, prop.ID, i))
    plan = jsonable(prop.gen(rng, tier))
    plan.setdefault("entropy", rng.getrandbits(32))
    return plan


def load_known(prop_id):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return [k for k in json.load(f).get("known", []) if k["property"] == prop_id]
    except FileNotFoundError:
        return []


def is_known(known, res):
    for k in known:
        if k["klass"] == res["klass"] and k["match"] in res["msg"]:
            return k
    return None


def check(prop, seed, tier, runs=None, max_wall=None):
    """Search; returns the exit code."""
    t0 = time.monotonic()
    r = Runner(prop, seed, tier)
    known = load_known(prop.ID)
    n = runs or prop.RUNS[tier]
    agg = Agg()
    state = {"first": None, "harness": [], "timeouts": [], "known": {}, "cut": False}

    def on(i, plan, res):
        if res["status"] == "harness":
            state["harness"].append((i, res["msg"]))
            return
        if res["status"] == "timeout":
            state["timeouts"].append((i, plan))
            return
        agg.add(i, plan, res)
        if res["status"] == "violation":
            k = is_known(known, res)
            if k:
                state["known"][k["id"]] = k
            elif state["first"] is None or i < state["first"][0]:
                state["first"] = (i, plan, res)

    def stop(i):
        if len(state["harness"]) > 5 or len(state["timeouts"]) >= MAX_TIMEOUTS:
            return True
        if time.monotonic() - t0 > (max_wall or SEARCH_WALL[tier]):
            state["cut"] = True
            return True
        return state["first"] is not None and i > state["first"][0]

    try:
        jobs = ((i, make_plan(prop, seed, i, tier), None, run_seed(seed, prop.ID + "/d", i)) for i in range(n))
        r.many(jobs, on, stop)
        for i, plan in sorted(state["timeouts"], key=lambda x: x[0])[:RECHECKS]:
            # slow machine, or does it never end?  Once more, alone and with more time.
            if state["first"] is not None and state["first"][0] < i:
                continue
            res = r.one(plan, None, run_seed(seed, prop.ID + "/d", i), wall=2 * RUN_WALL)
            if res["status"] == "timeout":
                res = {"status": "violation", "klass": "no-progress", "msg": "the run never ends", "used": {}, "hang": True}
            on(i, plan, res) if not res.get("hang") else state.update(first=(i, plan, res))
        code = 0
        for k in state["known"].values():
            print(f"KNOWN-FINDING: property={prop.ID} {k['what']}")
        vio = 0
        if state["first"]:
            vio = 1
            code = report(r, prop, state["first"], seed, tier)
        elif state["harness"]:
            print(f"harness error in run {state['harness'][0][0]}:\n{state['harness'][0][1]}", file=sys.stderr)
            code = 2
        write_evidence(prop, seed, tier, agg, time.monotonic() - t0, vio, len(state["harness"]))
        if state["cut"] or state["timeouts"]:
            print(f"{prop.ID}: search cut short after {agg.n} of {n} runs ({len(state['timeouts'])} given up as too slow)")
        print(f"{prop.ID} {tier} seed={seed}: {agg.n} runs, {len(agg.distinct)} distinct non-trivial, "
              f"{sum(agg.fired.values())} faults, {agg.processes} processes, {time.monotonic() - t0:.1f} s, exit {code}")
        return code
    finally:
        r.close()


def report(r, prop, first, seed, tier):
    i, plan, res = first
    out_dir = os.path.join(VERIF, "out")
    os.makedirs(out_dir, exist_ok=True)
    path = os.path.join(out_dir, f"{prop.ID}-{seed}-{i}.json")
    doc = {"property": prop.ID, "seed": seed, "tier": tier, "run": i, "hashseed": os.environ.get("PYTHONHASHSEED"),
           "klass": res["klass"], "message": res["msg"]}
    if res.get("hang"):
        doc.update(plan=plan, trace=None, run_seed=run_seed(seed, prop.ID + "/d", i))
    else:
        p, t, cur, cnt = r.minimise(plan, res)
        if cur is None:
            # did not fail again from its recorded decisions: keep the seeded run itself
            again = r.one(plan, None, run_seed(seed, prop.ID + "/d", i))
            doc.update(plan=plan, trace=None, run_seed=run_seed(seed, prop.ID + "/d", i), log_hash=res["log_hash"],
                       log=res["log"], reproduced=again["status"] == "violation")
        else:
            again = r.one(p, t)
            doc.update(plan=p, trace=t, message=cur["msg"], log_hash=cur["log_hash"], log=cur["log"],
                       original={"decisions": len(res["used"]), "plan": plan}, minimised_in=cnt,
                       reproduced=again.get("log_hash") == cur["log_hash"] and again["status"] == "violation")
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    print(f"{prop.ID}: {doc['klass']}: {doc['message']}")
    print(f"  run {i} of seed {seed}; replay: {os.path.join(VERIF, 'replay')} {path}")
    print(f"VIOLATION property={prop.ID} replay={path}")
    return 1


class Agg:
    def __init__(self):
        self.n = 0
        self.distinct = set()
        self.schedules = set()
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.fs = collections.Counter()
        self.tags = collections.Counter()
        self.virtual = 0.0
        self.switches = self.points = self.processes = self.tasks = self.requests = self.opportunities = 0
        self.cpu = 0.0
        self.samples = []

    def add(self, i, plan, res):
        self.n += 1
        info = res.get("info") or {}
        if info.get("nontrivial", True):
            self.distinct.add((res.get("sig"), res.get("log_hash")))
        self.schedules.add(res.get("sig"))
        self.fired.update(res.get("fired", {}))
        self.probes.update(res.get("probes", {}))
        self.fs.update(res.get("fs", {}))
        self.tags.update(info.get("tags", []))
        self.virtual += res.get("virtual", 0)
        for k in ("switches", "points", "processes", "tasks", "requests", "opportunities"):
            setattr(self, k, getattr(self, k) + res.get(k, 0))
        self.cpu += res.get("wall", 0)
        if len(self.samples) < 3 and info.get("nontrivial", True):
            self.samples.append({"run": i, "plan": plan, "decisions": dict(list(res.get("used", {}).items())[:12]),
                                 "status": res["status"], "outcome": info.get("tags")})


REAL = ["sleplet (every module, its own source)", "numpy", "scipy", "pyssht", "pys2let", "gmpy2", "igl (native code)",
        "pydantic", "concurrent.futures", "pooch", "requests above the transport", "plotly figure building"]
STUB = ["thread scheduling and locks (simulated scheduler)", "numba kernel (its Python source, prange rows as tasks)",
        "shared memory (in-process segments)", "disk (Python-level file calls with a durable-state model)",
        "network transport, doi.org and Zenodo (simulated archive with small synthetic files)", "clock and sleeps (virtual)",
        "processes (module state swapped per simulated process)", "random entropy sources", "browser display of figures"]


def write_evidence(prop, seed, tier, agg, wall, violations, harness_errors):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop.ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg.n,
            "distinct_nontrivial": len(agg.distinct),
            "rule": prop.RULE,
            "samples": agg.samples,
            "runs_and_seeds_per_hour": round(agg.n / wall * 3600) if wall else 0,
            "simulated_seconds": round(agg.virtual, 3),
            "simulated_processes": agg.processes,
            "simulated_tasks": agg.tasks,
            "context_switches": agg.switches,
            "scheduling_points": agg.points,
            "distinct_interleavings": len(agg.schedules),
            "interleaving_measure": "hash of the sequence of (task, preempted task, its step count)",
            "fault_opportunities": agg.opportunities,
            "faults_injected": dict(sorted(agg.fired.items())),
            "events": dict(sorted(agg.probes.items())),
            "file_operations": dict(sorted(agg.fs.items())),
            "archive_requests": agg.requests,
            "outcomes": dict(sorted(agg.tags.items())),
            "real_components": REAL,
            "stubbed_components": STUB,
            "harness_errors": harness_errors,
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    with open(os.path.join(VERIF, "evidence", f"{prop.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    import importlib

    reexec(int(doc.get("hashseed") or 0))
    prop = importlib.import_module(f"dst.props.{doc['property'].lower()}")
    r = Runner(prop, doc["seed"], doc["tier"])
    try:
        res = r.one(doc["plan"], doc["trace"], doc.get("run_seed", 0))
    finally:
        r.close()
    for line in res.get("log", []):
        print("  ", line)
    print(f"{res['status']}: {res.get('klass')}: {res.get('msg')}")
    if res["status"] in ("violation", "timeout"):
        same = doc.get("log_hash") in (None, res.get("log_hash"))
        print(f"the recorded execution was reproduced {'exactly' if same else 'NOT exactly'}")
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    return 0 if res["status"] == "ok" else 2
