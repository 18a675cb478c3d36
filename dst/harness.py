"""Batch driver: seeds -> scenarios -> simulated runs in forked processes -> verdict, evidence."""

import collections
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

_now = time.monotonic  # bound before any clock seam is installed

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class HarnessError(RuntimeError):
    pass


class Stuck(HarnessError):
    """A simulated run did not end in time, or took its whole process down."""


class CodeError(RuntimeError):
    """An exception which came out of conmech where none is allowed (a fault-free call)."""


_CODE = os.path.join(os.environ.get("DST_REPO", "/repo"), "conmech") + os.sep


def from_conmech(exc):
    """Did the exception pass through conmech code?"""
    if isinstance(exc, CodeError):
        return True
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(_CODE):
            return True
        tb = tb.tb_next
    return False


def error_payload(e):
    if isinstance(e, Stuck):
        return ("stuck", str(e), "")
    if isinstance(e, (MemoryError, RecursionError)) and not from_conmech(e):
        return ("err", f"{type(e).__name__}: {e}", traceback.format_exc())
    kind = "code" if from_conmech(e) and not isinstance(e, HarnessError) else "err"
    tail = traceback.format_exc()
    return (kind, f"{type(e).__name__}: {e}", tail[-1500:])


def died(status):
    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
    if sig and sig != signal.SIGKILL:
        return Stuck(f"process-crash: killed by signal {sig}")
    return HarnessError(f"child died without a result (status {status})")


# --------------------------------------------------------------------------- isolation
def isolated(fn, *args, timeout=120):
    """Run ``fn(*args)`` in a forked child; returns its (pickled) result."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                payload = ("ok", fn(*args))
                data = pickle.dumps(payload)
            except BaseException as e:  # noqa
                data = pickle.dumps(error_payload(e))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = _now() + timeout
    try:
        while True:
            left = end - _now()
            if left <= 0:
                raise Stuck(f"no-progress: not finished after {timeout} s")
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                continue
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    except HarnessError:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    if not chunks:
        raise died(status)
    out = pickle.loads(b"".join(chunks))
    if out[0] == "code":
        raise CodeError(f"{out[1]}\n{out[2]}")
    if out[0] == "stuck":
        raise Stuck(out[1])
    if out[0] == "err":
        raise HarnessError(f"in isolated child: {out[1]}\n{out[2]}")
    return out[1]


# --------------------------------------------------------------------------- context of a run
class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.kinds = collections.Counter()
        self.states = set()
        self.runs = 0
        self.checks = 0
        self.sim_time = 0.0
        self.events = 0
        self.violations = []
        self.log = []

    def violation(self, cls, msg):
        self.violations.append({"class": cls, "msg": str(msg)[:600]})

    def check(self, ok, cls, msg):
        self.checks += 1
        if not ok:
            self.violation(cls, msg() if callable(msg) else msg)
        return ok

    def expect_same(self, d, cls, what):
        """``d``: result of models.diff / diff_lists (None when equal)."""
        self.checks += 1
        if d is not None:
            self.violation(cls, f"{what}: {d}")
        return d is None

    def reached(self, *items):
        h = hashlib.blake2b(repr(items).encode(), digest_size=8).hexdigest()
        self.states.add(h)
        self.log.append(h)

    def merge(self, other):
        """``other``: dict made by ``export`` in an isolated child."""
        for k in ("faults", "probes", "kinds"):
            getattr(self, k).update(other[k])
        self.states |= set(other["states"])
        for k in ("runs", "checks", "sim_time", "events"):
            setattr(self, k, getattr(self, k) + other[k])
        self.violations += other["violations"]
        self.log += other["log"]

    def export(self):
        return {
            "faults": dict(self.faults), "probes": dict(self.probes), "kinds": dict(self.kinds),
            "states": sorted(self.states), "runs": self.runs, "checks": self.checks,
            "sim_time": self.sim_time, "events": self.events, "violations": self.violations,
            "log": self.log,
        }


def rng_for(prop, base, index):
    import numpy as np

    h = hashlib.sha256(f"{prop}|{base}|{index}".encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def load_prop(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def make_scenario(mod, base, index):
    rng = rng_for(mod.ID, base, index)
    sc = mod.gen(rng)
    sc = json.loads(json.dumps(sc))
    sc["_seed"] = [int(base), int(index)]
    return sc


def run_scenario(mod, scenario, scratch_root):
    """Called in a forked child."""
    import shutil
    import tempfile
    import warnings

    warnings.simplefilter("ignore")
    scratch = tempfile.mkdtemp(prefix="run-", dir=scratch_root)
    cwd = os.getcwd()
    ctx = Ctx(scratch)
    try:
        os.chdir(scratch)
        devnull = open(os.devnull, "w")
        old_out, old_err = sys.stdout, sys.stderr
        sys.stdout = devnull
        sys.stderr = devnull
        try:
            mod.run(scenario, ctx)
        except Exception as e:  # noqa
            if not from_conmech(e) or isinstance(e, HarnessError):
                raise
            ctx.violation("unexpected-exception",
                          f"{type(e).__name__}: {e} | {traceback.format_exc()[-400:]}")
        finally:
            sys.stdout, sys.stderr = old_out, old_err
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return ctx.export()


# --------------------------------------------------------------------------- pool of forked children
class Pool:
    def __init__(self, jobs, timeout):
        self.jobs, self.timeout = jobs, timeout
        self.live = {}  # fd -> [pid, key, chunks, deadline]

    def submit(self, key, fn, *args):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for fd in self.live:
                    os.close(fd)
                try:
                    data = pickle.dumps(("ok", fn(*args)))
                except BaseException as e:  # noqa
                    data = pickle.dumps(error_payload(e))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        self.live[r] = [pid, key, [], _now() + self.timeout]

    def full(self):
        return len(self.live) >= self.jobs

    def wait(self):
        """Yields finished (key, status, payload)."""
        done = []
        while not done and self.live:
            ready, _, _ = select.select(list(self.live), [], [], 0.5)
            for fd in ready:
                b = os.read(fd, 1 << 18)
                ent = self.live[fd]
                if b:
                    ent[2].append(b)
                    continue
                os.close(fd)
                _, status = os.waitpid(ent[0], 0)
                del self.live[fd]
                if not ent[2]:
                    e = died(status)
                    done.append((ent[1], "stuck" if isinstance(e, Stuck) else "err", str(e)))
                else:
                    out = pickle.loads(b"".join(ent[2]))
                    done.append((ent[1], out[0], out[1] if out[0] == "ok"
                                 else out[1] + "\n" + out[2]))
            now = _now()
            for fd, ent in list(self.live.items()):
                if now > ent[3]:
                    os.kill(ent[0], signal.SIGKILL)
                    os.close(fd)
                    os.waitpid(ent[0], 0)
                    del self.live[fd]
                    done.append((ent[1], "stuck",
                                 f"no-progress: not finished after {self.timeout} s"))
        return done

    def kill(self):
        for fd, ent in list(self.live.items()):
            os.kill(ent[0], signal.SIGKILL)
            os.close(fd)
            os.waitpid(ent[0], 0)
        self.live = {}


# --------------------------------------------------------------------------- minimisation
def _shrink_candidates(sc, lists):
    for key in lists:
        seq = _get(sc, key)
        if not isinstance(seq, list) or not seq:
            continue
        n = len(seq)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                cand = seq[:i] + seq[i + size:]
                if len(cand) < n:
                    yield _put(sc, key, cand)
            size //= 2


def _get(sc, key):
    for part in key.split("."):
        if isinstance(sc, list):
            part = int(part)
            if part >= len(sc):
                return None
        elif part not in sc:
            return None
        sc = sc[part]
    return sc


def _put(sc, key, value):
    sc = json.loads(json.dumps(sc))
    cur = sc
    parts = key.split(".")
    for part in parts[:-1]:
        cur = cur[int(part)] if isinstance(cur, list) else cur[part]
    if isinstance(cur, list):
        cur[int(parts[-1])] = value
    else:
        cur[parts[-1]] = value
    return sc


SIMPLE_MESH = {"kind": "cross", "scale": [1.0, 1.0], "per": 1.0}


def _spec_candidates(sc, path):
    spec = _get(sc, path)
    if not isinstance(spec, dict) or "kind" not in spec:
        return
    if spec.get("products"):
        yield _put(sc, path + ".products", [])
    if spec["mesh"] != SIMPLE_MESH and not spec["kind"].endswith("3d"):
        yield _put(sc, path + ".mesh", SIMPLE_MESH)
    for n in (1, 2, 3):
        if spec.get("n", 0) > n:
            yield _put(sc, path + ".n", n)
            break
    if spec.get("contact") not in (None, "none") and spec["kind"] != "wave_contact" and (
            spec.get("method") != "schur"):
        yield _put(sc, path + ".contact", "none")
    if spec.get("dirichlet_value"):
        yield _put(sc, path + ".dirichlet_value", 0.0)


def minimise(mod, scenario, cls, scratch, budget_s, jobs):
    """Greedy: keep any simplification after which the same violation class persists."""
    if cls == "no-progress":
        return scenario, 0
    end = _now() + budget_s
    tried = 0
    lists = getattr(mod, "SHRINK_LISTS", ())
    specs = getattr(mod, "SHRINK_SPECS", ("spec",))

    def fails(sc):
        try:
            out = isolated(run_scenario, mod, sc, scratch, timeout=60)
        except Stuck as e:
            return str(e).startswith(cls)
        except (HarnessError, KeyError, IndexError):
            return False
        return any(v["class"] == cls for v in out["violations"])

    improved = True
    while improved and _now() < end:
        improved = False
        gens = [_shrink_candidates(scenario, lists)]
        gens += [_spec_candidates(scenario, s) for s in specs]
        if hasattr(mod, "shrink"):
            gens.append(mod.shrink(scenario))
        for gen in gens:
            for cand in gen:
                if _now() > end:
                    return scenario, tried
                tried += 1
                if fails(cand):
                    scenario = cand
                    improved = True
                    break
            if improved:
                break
    return scenario, tried


# --------------------------------------------------------------------------- known findings
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e.get("property") == pid and e.get("status") == "known":
                    out.append(e)
    return out


def is_known(entry, scenario, violation):
    if entry["class"] != violation["class"]:
        return False
    m = entry.get("match", {})
    return all(_get(scenario, k) == v for k, v in m.items())


# --------------------------------------------------------------------------- batch
def batch(mod, tier, base, scratch, jobs, out_dir, n_seeds=None, budget=None):
    t0 = _now()
    pid = mod.ID
    n_seeds = n_seeds or (mod.QUICK if tier == "quick" else 10**9)
    hard_cap = 560 if tier == "quick" else (budget or 700)
    pool = Pool(jobs, timeout=150)
    agg = Ctx(None)
    samples = []
    failures = []
    errors = []
    stuck = []
    finished = 0
    nontrivial = set()
    nxt = 0
    known = known_findings(pid)
    known_seen = {}
    stop = False
    while True:
        while not stop and nxt < n_seeds and not pool.full():
            if _now() - t0 > hard_cap:
                stop = True
                break
            sc = make_scenario(mod, base, nxt)
            pool.submit((nxt, sc), run_scenario, mod, sc, scratch)
            nxt += 1
        if not pool.live:
            break
        for (idx, sc), status, payload in pool.wait():
            if status == "stuck":
                stuck.append((idx, sc, payload))
                stop = True
                continue
            if status != "ok":
                errors.append((idx, payload))
                if len(errors) > 5:
                    stop = True
                continue
            finished += 1
            if payload["checks"] > 0 and payload["log"]:
                nontrivial.add(hashlib.blake2b(repr(payload["log"]).encode(),
                                               digest_size=8).hexdigest())
            vs = payload["violations"]
            payload["violations"] = []
            payload["log"] = []
            agg.merge(payload)
            if len(samples) < 4 and not vs:
                samples.append({"seed": sc["_seed"], "scenario": mod.describe(sc)
                                if hasattr(mod, "describe") else _brief(sc)})
            fresh = []
            for v in vs:
                hit = [e for e in known if is_known(e, sc, v)]
                if hit:
                    known_seen[hit[0]["id"]] = hit[0]
                else:
                    fresh.append(v)
            if fresh:
                failures.append((idx, sc, fresh))
                stop = True
    wall_search = _now() - t0
    for e in known_seen.values():
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    replay = None
    verdict = "held"
    if stuck and not failures:
        # confirm on its own, with nothing else running
        idx, sc, msg = min(stuck, key=lambda f: f[0])
        try:
            isolated(run_scenario, mod, sc, scratch, timeout=150)
            errors.append((idx, msg))
        except Stuck as e:
            cls, _, text = str(e).partition(": ")
            failures.append((idx, sc, [{"class": cls, "msg": text}]))
        except (HarnessError, CodeError) as e:
            errors.append((idx, f"{msg}; then {e}"))
    if failures:
        failures.sort(key=lambda f: f[0])
        idx, sc, vs = failures[0]
        cls = vs[0]["class"]
        small, tried = minimise(mod, sc, cls, scratch, 60 if tier == "quick" else 120, jobs)
        try:
            out = {"violations": []} if cls == "no-progress" else isolated(
                run_scenario, mod, small, scratch)
            vs2 = [v for v in out["violations"] if v["class"] == cls] or vs
        except HarnessError:
            vs2 = vs
        os.makedirs(os.path.join(out_dir, "replays"), exist_ok=True)
        replay = os.path.join(out_dir, "replays", f"{pid}-{base}-{idx}.json")
        with open(replay, "w") as f:
            json.dump({"property": pid, "class": cls, "violation": vs2[0],
                       "seed": sc["_seed"], "scenario": small, "original": sc,
                       "minimisation_runs": tried}, f, indent=1)
        verdict = "violated"
        print(f"seed {sc['_seed']}: [{cls}] {vs2[0]['msg']}")
    if errors:
        for idx, e in errors[:3]:
            print(f"HARNESS-ERROR seed ({base},{idx}): {e}", file=sys.stderr)
        if verdict == "held":
            verdict = "error"
    short = finished < (n_seeds if tier == "quick" else 1)
    if short and verdict == "held" and finished < max(1, n_seeds // 4 if tier == "quick" else 1):
        verdict = "error"
        print(f"HARNESS-ERROR only {finished} of {n_seeds} runs fit into the time", file=sys.stderr)
    probes_missing = [p for p in getattr(mod, "PROBES", ()) if not agg.probes.get(p)]
    return {
        "verdict": verdict, "replay": replay, "agg": agg, "finished": finished,
        "seeds": nxt, "nontrivial": nontrivial, "samples": samples, "errors": len(errors),
        "wall": wall_search, "known": list(known_seen), "probes_missing": probes_missing,
    }


def _brief(sc):
    def cut(v, depth=0):
        if isinstance(v, dict):
            if "points" in v:
                return {"kind": "array", "nodes": len(v["points"])}
            return {k: cut(x, depth + 1) for k, x in v.items() if depth < 3}
        if isinstance(v, list) and len(v) > 12:
            return [cut(x, depth + 1) for x in v[:6]] + [f"... {len(v)} in all"]
        if isinstance(v, list):
            return [cut(x, depth + 1) for x in v]
        return v

    return cut(sc)


def write_evidence(mod, tier, base, res, wall_total, out_dir):
    agg = res["agg"]
    hours = max(res["wall"], 1e-6) / 3600
    ev = {
        "property": mod.ID, "tier": tier, "seed": int(base), "level": mod.LEVEL,
        "verdict": res["verdict"],
        "coverage": {
            "evaluations": int(agg.runs or res["finished"]),
            "distinct_nontrivial": len(res["nontrivial"]),
            "rule": mod.RULE,
            "samples": res["samples"],
            "oracle_checks": agg.checks,
            "seeds": res["seeds"],
            "seeds_finished": res["finished"],
            "seeds_per_hour": round(res["finished"] / hours),
            "simulated_runs_per_hour": round(agg.runs / hours),
            "simulated_physical_time_s": round(agg.sim_time, 3),
            "line_events_scheduled": agg.events,
            "faults_fired": dict(sorted(agg.faults.items())),
            "probes": dict(sorted(agg.probes.items())),
            "probes_missing": res["probes_missing"],
            "workload_kinds": dict(sorted(agg.kinds.items())),
            "distinct_states": len(agg.states),
            "distinct_states_measure": getattr(mod, "MEASURE", "hash of what the run recorded"),
            "real_components": mod.REAL, "stubbed_components": mod.STUB,
        },
        "known_findings_seen": res["known"],
        "replay": res["replay"],
        "wall_s": round(wall_total, 2),
    }
    os.makedirs(out_dir, exist_ok=True)
    path = os.path.join(out_dir, f"{mod.ID}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)
    return ev
